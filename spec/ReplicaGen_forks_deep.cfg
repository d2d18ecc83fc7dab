SPECIFICATION Spec
CONSTANTS
  YARNS = {0, 1}
  OTHERS = {5}
  EVENTS = 6
  FORMS = {14}
  PAIRS = FALSE
  LIFE = TRUE
  DEPTH = 5
CONSTRAINT Bound
VIEW State
CHECK_DEADLOCK FALSE
