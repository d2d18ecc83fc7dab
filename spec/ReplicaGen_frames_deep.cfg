SPECIFICATION Spec
CONSTANTS
  YARNS = {0}
  OTHERS = {5}
  EVENTS = 6
  FORMS = {14}
  PAIRS = TRUE
  LIFE = FALSE
  DEPTH = 4
CONSTRAINT Bound
VIEW State
CHECK_DEADLOCK FALSE
