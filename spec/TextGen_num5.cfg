SPECIFICATION Spec
CONSTANTS
 Scope = "num"
 Depth = 5
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
