--------------------------------- MODULE ECMTrace ---------------------------------
(* What the specification says about recorded configurations.                     *)
EXTENDS ECM, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Want(c) ==
  IF ~Supported(c) THEN [line |-> l, rejected |-> 1]
  ELSE [line |-> l, rejected |-> 0, tcomp |-> TComp(c), tregl1 |-> TRegL1(c), thr |-> Throughput(c),
        cycles |-> AllCycles(c), penalty |-> Penalty(c), ol |-> OLParts(c), nol |-> NOLParts(c),
        total |-> TECM(c), its |-> ItPerNs(c, TECM(c)), flops |-> FlopPerNs(c, TECM(c)),
        cyit |-> CyPerIt(c, TECM(c)), levelits |-> [i \in 1..Len(c.levels) |-> ItPerNs(c, AllCycles(c)[i])],
        levelcyit |-> [i \in 1..Len(c.levels) |-> CyPerIt(c, AllCycles(c)[i])],
        thrits |-> ItPerNs(c, Throughput(c)), thrcyit |-> CyPerIt(c, Throughput(c)),
        sat |-> SatCores(c), scaling |-> Scaling(c), itpercl |-> ItPerCl(c)]
Next ==
  /\ l <= Len(Trace)
  /\ PrintT(ToJson(Want(Trace[l])))
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ [][Next]_l
=============================================================================
