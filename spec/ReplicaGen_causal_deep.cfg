SPECIFICATION Spec
CONSTANTS
  YARNS = {0}
  OTHERS = {5, 6}
  EVENTS = 5
  FORMS = {13, 14}
  PAIRS = FALSE
  LIFE = FALSE
  DEPTH = 5
CONSTRAINT Bound
VIEW State
CHECK_DEADLOCK FALSE
