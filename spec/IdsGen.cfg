SPECIFICATION Spec
CONSTANTS
  Alphabet = {48, 57, 65, 70, 71, 97, 126, 95, 47, 36, 43, 45, 46}
  MaxLen = 4
INVARIANTS Canonical HashPrefix
CHECK_DEADLOCK FALSE
