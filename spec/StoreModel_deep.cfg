SPECIFICATION Spec
CONSTANTS
  BRANCHES = {"b1", "b2"}
  KEYS = 2
  FRAMES = 4
  WITHJOIN = TRUE
  WITHBATCH = TRUE
  DEPTH = 9
CONSTRAINT Bound
INVARIANTS ReadsAreMerges OneOpen Reopens SavedIsJoined HandOver Walks AllOrNothing
PROPERTY Isolation
CHECK_DEADLOCK FALSE
