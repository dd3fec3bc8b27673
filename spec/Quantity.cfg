CONSTANTS
 Mantissas = {0, 1, 3, 7, 100, 250}
 Exps = {"none", "k", "M"}
 Units = {"B", "s"}
 MaxOps = 2
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS ValueKept OrderTotal AddCommutes MulCommutes EmitInv
CHECK_DEADLOCK FALSE
