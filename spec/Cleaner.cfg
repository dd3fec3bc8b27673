CONSTANTS
 Alphabet <- AlphaComments
 MaxLen = 7
 Flags <- FlagsComments
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS LinesKept OnlyRemoves LineNumbers NoOpener DirectivesGone AgreesWithFold
CHECK_DEADLOCK FALSE
