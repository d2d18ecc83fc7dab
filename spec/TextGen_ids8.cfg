SPECIFICATION Spec
CONSTANTS
 Scope = "ids"
 Depth = 8
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
