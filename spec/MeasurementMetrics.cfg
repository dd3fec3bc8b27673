CONSTANTS
 Pool = {}
 MaxReq = 0
 Emit = TRUE
SPECIFICATION MetricSpec
CHECK_DEADLOCK FALSE
