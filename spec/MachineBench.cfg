SPECIFICATION Spec
CONSTANTS
  Series = 2
  Points = 2
  Versions = {1, 2}
  Stops = 2
  Edits = 1
  Atomic = TRUE
  Invalidate = TRUE
  Emit = FALSE
INVARIANTS Loads Truthful Right
PROPERTIES Keeps Ends
CHECK_DEADLOCK FALSE
