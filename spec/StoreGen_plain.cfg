SPECIFICATION Spec
CONSTANTS
  BRANCHES = {"b1"}
  KEYS = 3
  FRAMES = 4
  WITHJOIN = FALSE
  WITHBATCH = TRUE
  DEPTH = 7
CONSTRAINT Bound
VIEW View_
CHECK_DEADLOCK FALSE
