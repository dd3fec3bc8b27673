------------------------------ MODULE Bandwidth ------------------------------
(* Selection of a measured bandwidth for a traffic pattern.                     *)
(* A benchmark kernel has r read, w write and x read+write streams (x counted   *)
(* in both) and the bytes rb, wb, xb they move per iteration.                   *)
(* Ratios are pairs <<num, den>> with den >= 0; <<1, 0>> is infinite.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Abs(x) == IF x < 0 THEN -x ELSE x
Inf == <<1, 0>>
IsInf(a) == a[2] = 0
(* reads of a kernel include the write-allocate of streams that are only written *)
Ratio(k) == IF k.w = 0 THEN Inf ELSE <<k.r + k.w - k.x, k.w>>
Target(rn, wn) == IF wn = 0 THEN Inf ELSE <<rn, wn>>      \* common denominator dropped
(* distance |a - t| as a rational, infinite if exactly one of them is infinite *)
Dist(a, t) == IF IsInf(a) /\ IsInf(t) THEN <<0, 1>>
              ELSE IF IsInf(a) \/ IsInf(t) THEN Inf
              ELSE <<Abs(a[1] * t[2] - t[1] * a[2]), a[2] * t[2]>>
Leq(a, b) == IF IsInf(b) THEN TRUE ELSE IF IsInf(a) THEN FALSE ELSE a[1] * b[2] <= b[1] * a[2]
Closest(ks, t) == {k \in ks : \A o \in ks : Leq(Dist(Ratio(k), t), Dist(Ratio(o), t))}
(* correction for the write-allocate traffic that the benchmark does not count *)
Factor(k, level) == IF level = 0 THEN <<1, 1>> ELSE <<k.rb + 2 * k.wb - k.xb, k.rb + k.wb>>
MaxOf(s) == CHOOSE m \in s : \A x \in s : x <= m
Min2(a, b) == IF a < b THEN a ELSE b
(* measured value used: at exactly c cores, or the maximum within one NUMA domain *)
Usable(cores, results, c, group, domain) ==
  {i \in DOMAIN results : i \in DOMAIN cores /\ (IF c # 0 THEN cores[i] = c ELSE cores[i] <= Min2(group, domain))}

-----------------------------------------------------------------------------
(* Bounded model: every table of at most three benchmark kernels and every      *)
(* request; a machine answers requests one after another.                       *)
CONSTANTS MaxStream, MaxTarget, Emit
VARIABLES table, last
vars == <<table, last>>
Kern == {k \in [r : 0..MaxStream, w : 0..MaxStream, x : 0..1] : k.r + k.w > 0 /\ k.x <= k.r /\ k.x <= k.w}
Load == [r |-> 1, w |-> 0, x |-> 0]
Init == table \in {{Load, a, b} : a \in Kern, b \in Kern} /\ last = [rn |-> 0, wn |-> 0, k |-> Load]
Ask(rn, wn) == \E k \in Closest(table, Target(rn, wn)) :
                 last' = [rn |-> rn, wn |-> wn, k |-> k] /\ UNCHANGED table
Next == \E rn \in 0..MaxTarget, wn \in 0..MaxTarget : Ask(rn, wn)
Spec == Init /\ [][Next]_vars
Answered == \A rn \in 0..MaxTarget, wn \in 0..MaxTarget : Closest(table, Target(rn, wn)) # {}
ExactWins == LET t == Target(last.rn, last.wn) IN
   (\E k \in table : Dist(Ratio(k), t)[1] = 0 /\ ~IsInf(Dist(Ratio(k), t))) => Dist(Ratio(last.k), t)[1] = 0
(* more reads per write never select a benchmark with fewer reads per write *)
Monotone == \A w \in 1..MaxTarget : \A a, b \in 0..MaxTarget :
  a < b => \A k \in Closest(table, Target(a, w)) : \A o \in Closest(table, Target(b, w)) :
             Leq(Ratio(k), Ratio(o))
=============================================================================
