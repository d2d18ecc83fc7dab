SPECIFICATION Spec
CONSTANTS
 Scope = "num"
 Depth = 4
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
