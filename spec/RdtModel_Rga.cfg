CONSTANTS Form = 14
 Replicas = {1, 2}
 MaxOps = 5
SPECIFICATION Spec
INVARIANTS Converged MeaningKept Grouping IsTree StateFromLog
CHECK_DEADLOCK FALSE
