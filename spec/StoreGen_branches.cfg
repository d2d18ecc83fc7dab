SPECIFICATION Spec
CONSTANTS
  BRANCHES = {"b1", "b2"}
  KEYS = 1
  FRAMES = 2
  WITHJOIN = FALSE
  WITHBATCH = FALSE
  DEPTH = 6
CONSTRAINT Bound
VIEW View_
CHECK_DEADLOCK FALSE
