--------------------------- MODULE IntervalsTrace ---------------------------
(* Histories of calls on a pool of interval objects, as recorded from the code. *)
(* Every event carries the observable state (data) of *all* objects after the   *)
(* call, so that an operation that changes its operands is rejected.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

I == INSTANCE Intervals WITH MaxV <- 0, MaxLen <- 0, Emit <- FALSE,
                             input <- <<>>, data <- <<>>, pos <- 0, pc <- ""
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pool
vars == <<l, pool>>
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> want]))
Check(cond, clause, want) == IF cond THEN TRUE ELSE Bad(clause, want)

Ev == Trace[l]
Expected ==
  CASE Ev.op = "reset" -> <<>>
    [] Ev.op = "new" -> Append(pool, I!Normal(Ev.args))
    [] Ev.op = "and" -> Append(pool, I!Normal(pool[Ev.a] \o pool[Ev.b]))
    [] OTHER -> pool
Result ==
  CASE Ev.op = "len" -> ToString(I!Total(pool[Ev.a]))
    [] Ev.op = "in" -> ToString(I!Member(pool[Ev.a], Ev.x))
    [] Ev.op = "eq" -> ToString(pool[Ev.a] = pool[Ev.b])
    [] OTHER -> "None"

Init == l = 1 /\ pool = <<>>
Step == /\ l <= Len(Trace)
        /\ LET e == Expected  r == Result IN
           /\ Check(Ev.res = r, "result-" \o Ev.op, r)
           /\ Check(Len(Ev.pool) = Len(e), "pool-size", e)
           /\ IF Len(Ev.pool) = Len(e)
              THEN \A i \in DOMAIN e :
                     Check(Ev.pool[i] = e[i],
                           IF i = Len(e) /\ Ev.op \in {"new", "and"} THEN "value-" \o Ev.op
                           ELSE "operand-changed-by-" \o Ev.op, <<i, e[i]>>)
              ELSE TRUE
           /\ Check(Ev.args_kept = 1, "caller-data-changed-by-" \o Ev.op, <<>>)
           \* resynchronise on what the code reports, so that the rest is still checked
           /\ pool' = Ev.pool
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
