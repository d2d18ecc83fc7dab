SPECIFICATION Spec
CONSTANTS
 Scope = "two"
 Depth = 4
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
