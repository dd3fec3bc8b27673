CONSTANTS
 MaxStream = 3
 MaxTarget = 4
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Answered ExactWins Monotone
CHECK_DEADLOCK FALSE
