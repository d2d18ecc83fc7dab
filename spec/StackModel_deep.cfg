SPECIFICATION Spec
CONSTANTS
  Elems = {0, 1, 2, 12}
  MaxLen = 7
  Emit = TRUE
INVARIANTS Refines Compact
CHECK_DEADLOCK FALSE
