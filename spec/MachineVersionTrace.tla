-------------------------- MODULE MachineVersionTrace --------------------------
(* Which versions of machine descriptions were accepted.                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
M == INSTANCE MachineStore WITH Paths <- {}, Slots <- {}, MaxOps <- 0, CoreCounts <- {}, Kinds <- {},
       Emit <- FALSE, disk <- 0, inst <- 0, hist <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
E == Trace[l]
Next ==
  /\ l <= Len(Trace)
  /\ LET w == M!Supported(E.v, E.low, E.high) IN
     IF (E.accepted = 1) = w THEN TRUE ELSE Bad("version", w)
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ [][Next]_l
=============================================================================
