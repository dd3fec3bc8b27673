---------------------------- MODULE AssemblyTrace ----------------------------
(* Recorded detections of pointer increments and markings. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
A == INSTANCE Assembly WITH Blocks <- {}, Emit <- FALSE, block <- <<>>, start <- 0, regs <- <<>>,
        it <- 0, pos <- 0, log <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)
Increment == LET d == A!Increments(E.block) IN
    E.reported = 1 => Check(E.inc \in d, "increment", d)
(* out is the marked listing as line numbers (0 start, -1 end marker), empty if it was refused *)
Mark ==
  LET c == A!Choice(E.listing, E.how, E.number, E.answers)
      outs == {A!Marked(E.listing, x) : x \in c}
  IN IF E.out = <<>> THEN Check(c = {}, "refused", outs)
     ELSE /\ Check(E.out \in outs, "marked", outs)
          /\ Check(E.told = E.inc, "increment-told", E.told)
          /\ Check(E.again = <<>> \/ E.again = <<E.inc>>, "increment-remembered", E.again)
          /\ Check(E.given = <<>> \/ E.given = <<E.inc>>, "increment-given", E.given)
Next ==
  /\ l <= Len(Trace)
  /\ IF E.what = "increment" THEN Increment ELSE Mark
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ [][Next]_l
=============================================================================
