SPECIFICATION Spec
CONSTANTS
  YARNS = {0, 1}
  EVENTS = 4
  DEPTH = 6
CONSTRAINT Bound
VIEW State
INVARIANTS Ended Owned Leads SameByLabel
PROPERTIES Asking Refusals Alone Events_ Started_ New__
CHECK_DEADLOCK FALSE
