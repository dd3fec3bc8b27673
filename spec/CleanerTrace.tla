---------------------------- MODULE CleanerTrace ----------------------------
(* Recorded calls of the cleaner on long texts, one event per call. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
C == INSTANCE Cleaner WITH Alphabet <- {}, MaxLen <- 0, Flags <- {}, Emit <- FALSE,
       text <- <<>>, flags <- <<>>, lined <- <<>>, pos <- 0, st <- <<>>, pc <- ""
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> want]))
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               w == C!Clean(e.t, [comments |-> e.c = 1, macros |-> e.m = 1, pragmas |-> e.p = 1])
           IN IF w = e.o THEN TRUE ELSE Bad("cleaned-text", w)
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ [][Next]_l
=============================================================================
