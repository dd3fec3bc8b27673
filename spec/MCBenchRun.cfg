CONSTANTS
 Enough = 15
 Goal = 20
 First = 10
 MaxCost = 60
 Fine = 30
 Jitter = 1
 MaxCounted = 2
SPECIFICATION Spec
INVARIANTS Going Long NotEndless
PROPERTY Ends
CHECK_DEADLOCK FALSE
