CONSTANTS
 Pool <- MCPool
 MaxReq = 3
 Emit = TRUE
INIT Init
NEXT ReqNext
CHECK_DEADLOCK FALSE
