SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Transparent
INVARIANT TypeOK
CONSTANT MaxRuns = 2
CONSTANT Weaken = FALSE
CONSTANT Emit = FALSE
CONSTANT FirstWants = {"incore", "ompexe", "exe", "ecm", "roofline"}
CONSTANT NextWants = {"incore", "ompexe", "exe", "ecm", "roofline", "lcs", "ecmdata"}
