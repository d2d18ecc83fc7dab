CONSTANTS Kind = "max"
 N = 8
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
