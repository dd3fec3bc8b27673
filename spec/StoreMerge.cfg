CONSTANTS
 Keys = {"x", "y"}
 Leaves = {1, 2}
 Depth = 2
 MaxSources = 1
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS SourceKept EarlierKept NothingNew Idempotent
CHECK_DEADLOCK FALSE
