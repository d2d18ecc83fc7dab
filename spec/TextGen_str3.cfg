SPECIFICATION Spec
CONSTANTS
 Scope = "str"
 Depth = 3
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
