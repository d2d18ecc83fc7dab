SPECIFICATION Spec
CONSTANTS
  YARNS = {0, 1}
  OTHERS = {5}
  EVENTS = 5
  FORMS = {14}
  PAIRS = TRUE
  LIFE = TRUE
  DEPTH = 6
CONSTRAINT Bound
VIEW State
INVARIANTS Causal Yarns Whole States Converge Clock Active Reopens Deaths
PROPERTIES OneBranch Refused Forked Later Splits
CHECK_DEADLOCK FALSE
