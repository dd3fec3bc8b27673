SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
CONSTANT MaxRuns = 2
CONSTANT Weaken = TRUE
CONSTANT Emit = TRUE
CONSTANT FirstWants = {"incore", "ompexe", "exe", "lc", "sim"}
CONSTANT NextWants = {"incore", "ompexe", "exe", "lc", "sim"}
