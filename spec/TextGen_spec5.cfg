SPECIFICATION Spec
CONSTANTS
 Scope = "spec"
 Depth = 5
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
