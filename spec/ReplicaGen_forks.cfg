SPECIFICATION Spec
CONSTANTS
  YARNS = {0, 1}
  OTHERS = {5}
  EVENTS = 5
  FORMS = {14}
  PAIRS = FALSE
  LIFE = TRUE
  DEPTH = 4
CONSTRAINT Bound
VIEW State
CHECK_DEADLOCK FALSE
