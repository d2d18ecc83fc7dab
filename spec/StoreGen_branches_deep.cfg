SPECIFICATION Spec
CONSTANTS
  BRANCHES = {"b1", "b2"}
  KEYS = 1
  FRAMES = 3
  WITHJOIN = FALSE
  WITHBATCH = TRUE
  DEPTH = 8
CONSTRAINT Bound
VIEW View_
CHECK_DEADLOCK FALSE
