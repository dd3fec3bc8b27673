------------------------------ MODULE LoopNest ------------------------------
(* An interpreter for perfect nests of C for-loops                              *)
(*    for (i1 = s1; i1 < e1; i1 += d1) for (i2 = s2; ...) ... BODY              *)
(* One action per dynamic step of the C program (enter a loop, execute the      *)
(* body, increment, leave). `trips` counts executed bodies: the n-th execution  *)
(* (from 0) is iteration number n. The closed forms used for the conversions    *)
(* are checked against the interpreter as invariants.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt

CONSTANTS Nests, Emit

Lengthl(l) == IF l.e <= l.s THEN 0 ELSE (l.e - l.s + l.d - 1) \div l.d
RECURSIVE Prod(_, _)
Prod(nest, k) == IF k > Len(nest) THEN 1 ELSE Lengthl(nest[k]) * Prod(nest, k + 1)
Total(nest) == Prod(nest, 1)
(* iteration number -> index tuple (outermost first) and back *)
Indices(nest, n) == [k \in DOMAIN nest |->
    nest[k].s + ((n \div Prod(nest, k + 1)) % Lengthl(nest[k])) * nest[k].d]
RECURSIVE Number(_, _, _)
Number(nest, idx, k) == IF k > Len(nest) THEN 0
   ELSE ((idx[k] - nest[k].s) \div nest[k].d) * Prod(nest, k + 1) + Number(nest, idx, k + 1)
NumberOf(nest, idx) == Number(nest, idx, 1)

VARIABLES nest, idx, depth, mode, trips, log
vars == <<nest, idx, depth, mode, trips, log>>

Init == /\ nest \in Nests /\ idx = [k \in DOMAIN nest |-> 0]
        /\ depth = 1 /\ mode = "init" /\ trips = 0 /\ log = <<>>
EnterLoop == /\ mode = "init" /\ idx' = [idx EXCEPT ![depth] = nest[depth].s]
             /\ mode' = "test" /\ UNCHANGED <<nest, depth, trips, log>>
TestTrue == /\ mode = "test" /\ idx[depth] < nest[depth].e
            /\ IF depth = Len(nest) THEN mode' = "body" /\ UNCHANGED depth
                                    ELSE mode' = "init" /\ depth' = depth + 1
            /\ UNCHANGED <<nest, idx, trips, log>>
TestFalse == /\ mode = "test" /\ ~(idx[depth] < nest[depth].e)
             /\ IF depth = 1 THEN mode' = "end" /\ UNCHANGED depth
                             ELSE mode' = "inc" /\ depth' = depth - 1
             /\ UNCHANGED <<nest, idx, trips, log>>
Body == /\ mode = "body" /\ trips' = trips + 1 /\ log' = Append(log, idx) /\ mode' = "inc"
        /\ UNCHANGED <<nest, idx, depth>>
Inc == /\ mode = "inc" /\ idx' = [idx EXCEPT ![depth] = @ + nest[depth].d] /\ mode' = "test"
       /\ UNCHANGED <<nest, depth, trips, log>>
Stop == /\ mode = "end" /\ mode' = "done" /\ UNCHANGED <<nest, idx, depth, trips, log>>
        /\ IF Emit THEN PrintT(ToJson([nest |-> nest, log |-> log])) ELSE TRUE
Next == EnterLoop \/ TestTrue \/ TestFalse \/ Body \/ Inc \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ClosedForm == mode = "body" => /\ Indices(nest, trips) = idx
                               /\ NumberOf(nest, idx) = trips
TripCount == mode = "done" => trips = Total(nest)
LastNumber == mode = "done" /\ trips > 0 => NumberOf(nest, log[Len(log)]) = trips - 1
(* program order is the lexicographic order of index tuples *)
RECURSIVE Lex(_, _, _)
Lex(a, b, k) == k <= Len(a) /\ (a[k] < b[k] \/ (a[k] = b[k] /\ Lex(a, b, k + 1)))
Ordered == \A i \in 1..(Len(log) - 1) : Lex(log[i], log[i + 1], 1)
Terminates == <>(mode = "done")
=============================================================================
