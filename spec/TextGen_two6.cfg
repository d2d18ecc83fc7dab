SPECIFICATION Spec
CONSTANTS
 Scope = "two"
 Depth = 6
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
