SPECIFICATION Spec
CONSTANTS
  BRANCHES = {"b1"}
  KEYS = 3
  FRAMES = 5
  WITHJOIN = FALSE
  WITHBATCH = TRUE
  DEPTH = 9
CONSTRAINT Bound
VIEW View_
CHECK_DEADLOCK FALSE
