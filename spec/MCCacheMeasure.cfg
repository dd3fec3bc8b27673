SPECIFICATION Spec
CONSTANTS
  MaxTotal = 26
  Lines = {1, 2, 4}
  Portions = {1, 3, 5, 9}
  Window = 8
  Steps = 3
INVARIANTS WholeLines WarmFirst Accepts
PROPERTIES Ends
