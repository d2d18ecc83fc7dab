SPECIFICATION Spec
CONSTANTS
  YARNS = {0, 1}
  EVENTS = 5
  DEPTH = 7
CONSTRAINT Bound
VIEW State
INVARIANTS Ended Owned Leads SameByLabel
PROPERTIES Asking Refusals Alone Events_ Started_ New__
CHECK_DEADLOCK FALSE
