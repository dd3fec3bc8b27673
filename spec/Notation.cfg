CONSTANTS
 Chars = {"0", "1", "C"}
 Words = {"PMC"}
 Ranges <- MCRanges
 MaxLen = 5
 MaxDone = 1
 MaxParams = 0
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Bounded
PROPERTIES Grows OnlyBarExtends
CHECK_DEADLOCK FALSE
