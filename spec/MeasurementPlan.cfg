CONSTANTS
 Pool <- MCPool
 MaxReq = 3
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Sound Complete
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
