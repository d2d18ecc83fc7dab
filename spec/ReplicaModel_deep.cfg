SPECIFICATION Spec
CONSTANTS
  YARNS = {0, 1}
  OTHERS = {5}
  EVENTS = 6
  FORMS = {14}
  PAIRS = FALSE
  LIFE = TRUE
  DEPTH = 8
CONSTRAINT Bound
VIEW State
INVARIANTS Causal Yarns Whole States Converge Clock Active Reopens Deaths
PROPERTIES OneBranch Refused Forked Later Splits
CHECK_DEADLOCK FALSE
