----------------------------- MODULE MCLoopNest -----------------------------
EXTENDS LoopNest
CONSTANTS Starts, MaxTrip, Steps, Depth3
Loops(ss, m, ds) == UNION {{[s |-> a, e |-> a + n, d |-> dd] : n \in 1..m} : a \in ss, dd \in ds}
L == Loops(Starts, MaxTrip, Steps)
L3 == Loops({1}, 3, {1, 2})
MCNests == [1..1 -> Loops(0..5, 7, 1..4)] \cup [1..2 -> L]
           \cup (IF Depth3 THEN [1..3 -> L3] ELSE {})
=============================================================================
