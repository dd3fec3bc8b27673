---------------------------- MODULE QuantityTrace ----------------------------
(* Recorded histories of operations on a pool of quantities. Mantissas of       *)
(* observed values arrive as text (they may not fit TLC's integers).            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Q == INSTANCE Quantity WITH Mantissas <- {}, Exps <- {}, Units <- {}, MaxOps <- 0, Emit <- FALSE,
       q <- <<>>, meaning <- 0, ops <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)
E == Trace[l]
Cmp == {"lt", "le", "gt", "ge", "eq", "ne"}
IsB == "b" \in DOMAIN E
B == IF IsB THEN E.b ELSE E.a
Shown(d) == <<ToString(Q!Norm(d)[1]), Q!Norm(d)[2]>>
Next ==
  /\ l <= Len(Trace)
  /\ IF E.op \in Cmp
     THEN LET w == Q!Truth(E.op, E.a, B) IN Check(E.truth = (IF w THEN 1 ELSE 0), E.op, w)
     ELSE IF E.op = "print"
     THEN IF E.err = 1 THEN Bad("print-or-reparse-failed", "")
          ELSE /\ Check(E.ru = E.a.u, "printed-unit", E.a.u)
               /\ Check(Q!PrintedOk(E.a, E.printed), "printed-value", Q!Base(E.a))
     ELSE LET w == Q!Meaning(E.op, E.a, B) IN
          IF w = Q!Err THEN Check(E.err = 1, E.op \o "-must-be-rejected", "ValueError")
          ELSE IF E.err = 1 THEN Bad(E.op \o "-raised", w)
          ELSE /\ Check(E.r = Shown(w[1]), E.op \o "-value", w)
               /\ Check(E.ru = w[2], E.op \o "-unit", w)
  /\ Check(E.kept = 1, "operand-changed", "")
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ [][Next]_l
=============================================================================
