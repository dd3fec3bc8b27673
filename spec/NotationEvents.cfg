CONSTANTS
 Chars = {}
 Words = {}
 Ranges = {}
 MaxLen = 5
 MaxDone = 1
 MaxParams = 2
 Emit = TRUE
SPECIFICATION EvSpec
CHECK_DEADLOCK FALSE
