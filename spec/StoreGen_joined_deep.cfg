SPECIFICATION Spec
CONSTANTS
  BRANCHES = {"b1"}
  KEYS = 3
  FRAMES = 5
  WITHJOIN = TRUE
  WITHBATCH = TRUE
  DEPTH = 10
CONSTRAINT Bound
VIEW View_
CHECK_DEADLOCK FALSE
