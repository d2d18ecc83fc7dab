SPECIFICATION Spec
CONSTANTS
 Scope = "ids"
 Depth = 6
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
