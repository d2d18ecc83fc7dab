CONSTANTS Form = 13
 Replicas = {1, 2}
 MaxOps = 4
SPECIFICATION Spec
INVARIANTS Converged MeaningKept Grouping IsTree StateFromLog Compacts Viewed
CHECK_DEADLOCK FALSE
