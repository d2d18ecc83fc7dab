SPECIFICATION Spec
CONSTANTS
  Elems = {0, 1, 2, 12}
  MaxLen = 6
  Emit = TRUE
INVARIANTS Refines Compact
CHECK_DEADLOCK FALSE
