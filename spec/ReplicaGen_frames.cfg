SPECIFICATION Spec
CONSTANTS
  YARNS = {0}
  OTHERS = {5}
  EVENTS = 5
  FORMS = {13, 14}
  PAIRS = TRUE
  LIFE = FALSE
  DEPTH = 3
CONSTRAINT Bound
VIEW State
CHECK_DEADLOCK FALSE
