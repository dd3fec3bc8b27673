CONSTANTS
 Kernels = {"k0", "k1", "k2"}
 Models <- MCModels
 Cores = {1}
 DefPool <- MCPool
 MaxDefs = 2
 MaxInv = 1
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS OnceEach RunsStored
PROPERTIES NothingLost FailureKeeps OnlyOwnEntriesChange
CHECK_DEADLOCK FALSE
