--------------------------- MODULE MeasurementPlan ---------------------------
(* Planning of counter measurements and evaluation of metrics.                  *)
(* An event request is [event, text, regs, params]; text is the register        *)
(* notation, regs the registers it denotes. A plan is a sequence of runs, each  *)
(* a set of [event, reg, params].                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pool, MaxReq, Emit
Elems(s) == {s[i] : i \in DOMAIN s}

(* ---- what a correct plan is --------------------------------------------------- *)
Entries(plan) == UNION {{<<i, j>> : j \in DOMAIN plan[i]} : i \in DOMAIN plan}
At(plan, x) == plan[x[1]][x[2]]
Fits(q, m) == q.event = m.event /\ q.params = m.params /\ m.reg \in q.regs
NoConflict(plan) == \A i \in DOMAIN plan : \A j, k \in DOMAIN plan[i] :
                      j # k => plan[i][j].reg # plan[i][k].reg
NothingElse(req, plan) == \A x \in Entries(plan) : \E q \in req : Fits(q, At(plan, x))
(* each request has its own measurement: requests that could share one are matched *)
Same(q, p) == q.event = p.event /\ q.params = p.params
EachOnce(req, plan) ==
  /\ Cardinality(Entries(plan)) = Cardinality(req)
  /\ \A q \in req :
       LET grp == {p \in req : Same(p, q)}
           ent == {x \in Entries(plan) : At(plan, x).event = q.event /\ At(plan, x).params = q.params}
       IN /\ Cardinality(grp) = Cardinality(ent)
          /\ \E f \in [grp -> ent] : /\ \A a, b \in grp : a # b => f[a] # f[b]
                                     /\ \A a \in grp : Fits(a, At(plan, f[a]))
Covered(req, plan) == \A q \in req : \E x \in Entries(plan) : Fits(q, At(plan, x))

(* ---- the planner: any order, any free register, new runs on demand --------------- *)
VARIABLES req, plan, phase
vars == <<req, plan, phase>>
ReqSet == Elems(req)
Open == {q \in ReqSet : ~\E x \in Entries(plan) : Fits(q, At(plan, x)) /\ At(plan, x).q = q}
Init == req = <<>> /\ plan = <<>> /\ phase = "request"
Request(q) == /\ phase = "request" /\ Len(req) < MaxReq
              /\ req' = Append(req, q) /\ UNCHANGED <<plan, phase>>
Start == /\ phase = "request" /\ req # <<>> /\ phase' = "plan" /\ UNCHANGED <<req, plan>>
         /\ IF Emit THEN PrintT(ToJson([req |-> req])) ELSE TRUE
Put(q, r, i) == /\ phase = "plan" /\ q \in Open /\ i \in DOMAIN plan /\ r \in q.regs
                /\ \A j \in DOMAIN plan[i] : plan[i][j].reg # r
                /\ plan' = [plan EXCEPT ![i] = Append(@, [event |-> q.event, params |-> q.params, reg |-> r, q |-> q])]
                /\ UNCHANGED <<req, phase>>
NewRun == /\ phase = "plan" /\ Open # {} /\ Len(plan) < MaxReq
          /\ \A i \in DOMAIN plan : plan[i] # <<>>
          /\ plan' = Append(plan, <<>>) /\ UNCHANGED <<req, phase>>
Next == \/ \E q \in Pool : Request(q)
        \/ Start
        \/ \E q \in Open : \E r \in q.regs : \E i \in DOMAIN plan : Put(q, r, i)
        \/ NewRun
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ NewRun \/ \E q \in Open : \E r \in q.regs : \E i \in DOMAIN plan : Put(q, r, i))
Sound == NoConflict(plan) /\ NothingElse(ReqSet, plan)
Complete == (phase = "plan" /\ Open = {}) => EachOnce(ReqSet, plan)
Done == phase = "plan" /\ Open = {}
Terminates == (phase = "plan") ~> Done

(* ---- metrics: expressions over counters ------------------------------------------- *)
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Val(_, _)
Val(e, A) ==
  CASE e.op = "c" -> A[e.c]
    [] e.op = "n" -> e.n
    [] e.op = "+" -> Val(e.l, A) + Val(e.r, A)
    [] e.op = "-" -> Val(e.l, A) - Val(e.r, A)
    [] e.op = "*" -> Val(e.l, A) * Val(e.r, A)
    [] e.op = "Max" -> Max2(Val(e.l, A), Val(e.r, A))
RECURSIVE Show(_)
Show(e) ==
  CASE e.op = "c" -> e.c
    [] e.op = "n" -> ToString(e.n)
    [] e.op \in {"+", "-", "*"} -> "(" \o Show(e.l) \o " " \o e.op \o " " \o Show(e.r) \o ")"
    [] e.op = "Max" -> "Max(" \o Show(e.l) \o ", " \o Show(e.r) \o ")"
RECURSIVE Counters(_)
Counters(e) == CASE e.op = "c" -> {e.c} [] e.op = "n" -> {}
                 [] OTHER -> Counters(e.l) \cup Counters(e.r)
=============================================================================
