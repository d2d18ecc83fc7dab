SPECIFICATION Spec
CONSTANTS
 Scope = "spec"
 Depth = 4
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
