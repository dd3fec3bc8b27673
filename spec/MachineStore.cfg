CONSTANTS
 Paths = {1, 2}
 Slots = {1, 2}
 MaxOps = 4
 CoreCounts = {1, 3, 8}
 Kinds = {"load", "edit", "change", "sim", "direct", "dump"}
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS Sane Shares
PROPERTIES Isolated QueriesPure
CHECK_DEADLOCK FALSE
