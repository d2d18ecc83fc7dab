SPECIFICATION Spec
CONSTANTS
  Digits = {0, 1, 9, 10, 35, 36, 37, 63}
INVARIANTS RoundTrip TextOrder Total Inc FormsOnto Clock ClockFits
CHECK_DEADLOCK FALSE
