CONSTANTS
 Alphabet <- AlphaAll
 MaxLen = 7
 Flags <- FlagsAll
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS LinesKept OnlyRemoves LineNumbers NoOpener DirectivesGone AgreesWithFold
CHECK_DEADLOCK FALSE
