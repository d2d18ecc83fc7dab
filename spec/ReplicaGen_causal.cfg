SPECIFICATION Spec
CONSTANTS
  YARNS = {0}
  OTHERS = {5, 6}
  EVENTS = 5
  FORMS = {14}
  PAIRS = FALSE
  LIFE = FALSE
  DEPTH = 4
CONSTRAINT Bound
VIEW State
CHECK_DEADLOCK FALSE
