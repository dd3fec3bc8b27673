SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT SameAsRuns
INVARIANT Sound
CONSTANT Blocks <- Small
CONSTANT Emit = TRUE
CONSTANT MaxLen = 2
