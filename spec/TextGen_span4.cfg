SPECIFICATION Spec
CONSTANTS
 Scope = "span"
 Depth = 4
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
