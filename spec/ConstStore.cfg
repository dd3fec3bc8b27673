CONSTANTS
 Values = {5, 8}
 MaxOps = 4
 FlushOnSet = TRUE
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS AnswersCurrent
CHECK_DEADLOCK FALSE
