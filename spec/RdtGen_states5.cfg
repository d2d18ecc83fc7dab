CONSTANTS Kind = "states"
 N = 5
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
