---------------------------- MODULE LoopNestTrace ----------------------------
(* Recorded conversions on larger nests. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
L == INSTANCE LoopNest WITH Nests <- {}, Emit <- FALSE, nest <- <<>>, idx <- <<>>, depth <- 0,
        mode <- "", trips <- 0, log <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)
Next ==
  /\ l <= Len(Trace)
  /\ Check(E.total = L!Total(E.nest), "total-iterations", L!Total(E.nest))
  /\ Check(E.last = L!Total(E.nest) - 1, "last-iteration", L!Total(E.nest) - 1)
  /\ \A k \in DOMAIN E.nest :
       Check(E.lens[k] = L!Lengthl(E.nest[k]), "loop-length", <<k, L!Lengthl(E.nest[k])>>)
  /\ \A j \in DOMAIN E.pts :
       /\ Check(E.pts[j].idx = L!Indices(E.nest, E.pts[j].n), "number-to-indices",
                <<E.pts[j].n, L!Indices(E.nest, E.pts[j].n)>>)
       /\ Check(E.pts[j].back = E.pts[j].n, "indices-to-number", E.pts[j].n)
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ [][Next]_l
=============================================================================
