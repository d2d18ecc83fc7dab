SPECIFICATION Spec
CONSTANTS
  BRANCHES = {"b1"}
  KEYS = 2
  FRAMES = 4
  WITHJOIN = TRUE
  WITHBATCH = TRUE
  DEPTH = 8
CONSTRAINT Bound
VIEW View_
CHECK_DEADLOCK FALSE
