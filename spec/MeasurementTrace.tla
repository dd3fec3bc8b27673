--------------------------- MODULE MeasurementTrace ---------------------------
(* Plans made by the code, and complete measurements done through the command   *)
(* line of a stand-in for likwid-perfctr that logs what it is asked to measure. *)
(*  plan:   requested events and the planned runs                               *)
(*  metric: expression, the measured counters and the value reported            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
M == INSTANCE MeasurementPlan WITH Pool <- {}, MaxReq <- 0, Emit <- FALSE, req <- <<>>, plan <- <<>>, phase <- "plan"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, last
E == Trace[l]
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)
Req == {[event |-> q.event, params |-> q.params, regs |-> M!Elems(q.regs)] : q \in M!Elems(E.req)}
(* values the counter c may have: those measured for it *)
Values(c) == LET q == E.of[c] IN
  {last[i].val : i \in {j \in DOMAIN last : last[j].event = q.event /\ last[j].params = q.params
                                            /\ last[j].reg \in M!Elems(q.regs)}}
Flat(rs) == LET RECURSIVE F(_)
                F(s) == IF s = <<>> THEN <<>> ELSE s[1] \o F(Tail(s)) IN F(rs)
Next ==
  /\ l <= Len(Trace)
  /\ CASE E.ev = "plan" ->
            /\ Check(M!NoConflict(E.runs), "register-used-twice-in-a-run", E.runs)
            /\ Check(M!NothingElse(Req, E.runs), "event-in-wrong-register-or-not-requested", Req)
            /\ Check(M!Covered(Req, E.runs), "requested-event-not-measured", Req)
            /\ Check(M!EachOnce(Req, E.runs), "event-not-measured-exactly-once", Req)
            /\ last' = Flat(E.runs)
       [] E.ev = "metric" ->
            LET cs == M!Counters(E.expr) IN
            /\ IF \A c \in cs : Values(c) # {}
               THEN Check(\E a \in [cs -> UNION {Values(c) : c \in cs}] :
                            /\ \A c \in cs : a[c] \in Values(c)
                            /\ M!Val(E.expr, a) = E.got,
                          "metric-value", [c \in cs |-> Values(c)])
               ELSE Bad("counter-of-metric-not-measured", cs)
            /\ UNCHANGED last
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ last = <<>> /\ [][Next]_<<l, last>>
=============================================================================
