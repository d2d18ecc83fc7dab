SPECIFICATION Spec
CONSTANTS
 Scope = "str"
 Depth = 4
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
