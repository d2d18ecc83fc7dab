SPECIFICATION Spec
CONSTANTS
 Scope = "span"
 Depth = 5
INVARIANTS Fresh Emitted
PROPERTIES Monotone OnTerm
CHECK_DEADLOCK FALSE
