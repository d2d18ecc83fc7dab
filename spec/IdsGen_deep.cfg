SPECIFICATION Spec
CONSTANTS
  Alphabet = {48, 65, 70, 71, 97, 95, 47, 36, 43, 45, 46}
  MaxLen = 5
INVARIANTS Canonical HashPrefix
CHECK_DEADLOCK FALSE
