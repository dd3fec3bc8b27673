CONSTANTS
 Procs = {"a", "b"}
 Programs = 0
 Wants <- Pairs
 Deps <- Chain
 MaxEdits = 1
 MaxTouches = 1
 MaxKills = 1
 ContentKeys = TRUE
 AtomicWrite = TRUE
 Recheck = TRUE
 HoldInUse = TRUE
 Emit = TRUE
SPECIFICATION LogSpec
CHECK_DEADLOCK FALSE
