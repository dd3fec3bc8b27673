------------------------------ MODULE RooflineTrace ------------------------------
EXTENDS Roofline, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Want(c) == LET p == Performance(c) q == CPU(c) IN
  [limits |-> Limits(c), intensity |-> Intensity(c), cpu |-> q, perf |-> p, memory |-> Memory(c),
   bytes |-> <<Whole(L1Bytes(c))>> \o [i \in 1..Len(c.levels) |-> Bytes(c, c.levels[i])],
   cyit |-> [i \in 1..(Len(c.levels) + 1) |-> InCyPerIt(c, Limits(c)[i])], cpucyit |-> InCyPerIt(c, q),
   itpercl |-> ItPerCl(c), ports |-> PortCycles(c), line |-> l, ratio |-> Ratio(c), thr |-> LineThroughput(c), guilty |-> [i \in 1..(Len(c.levels) + 1) |-> IF i \in Guilty(c) THEN 1 ELSE 0],
   cpubound |-> IF Lt(q, Memory(c)) THEN "yes" ELSE IF Leq(q, Memory(c)) THEN "either" ELSE "no"]
Next ==
  /\ l <= Len(Trace)
  /\ PrintT(ToJson(Want(Trace[l])))
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ [][Next]_l
=============================================================================
