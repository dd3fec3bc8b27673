CONSTANTS
 Starts = {0, 1, 3}
 MaxTrip = 4
 Steps = {1, 2, 3}
 Depth3 = TRUE
 Nests <- MCNests
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS ClosedForm TripCount LastNumber Ordered
CHECK_DEADLOCK FALSE
