CONSTANTS Kind = "broken"
 N = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
