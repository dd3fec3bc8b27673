------------------------- MODULE MCLayerConditions -------------------------
(*************************************************************************)
(* Layer conditions against a cache: streams of accesses pass over the   *)
(* arrays of a kernel, a fully associative cache with least recently     *)
(* used replacement holds Cap data. In steady state exactly the accesses *)
(* hit which the layer conditions tell -- unless the cache is within     *)
(* Slack of what they require, where the order of accesses within an     *)
(* iteration counts.                                                     *)
(*************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, LayerConditions
CONSTANTS Far, Arrays, MaxCap, MaxAccesses
VARIABLES pattern,      \* array -> offsets of its accesses
          cap, t, left, \* accesses of iteration t which are still to be done
          stack,        \* data in the cache, least recently used first
          missed        \* accesses of this iteration which missed
vars == <<pattern, cap, t, left, stack, missed>>

Patterns == {q \in [Arrays -> SUBSET (0..Far)] :
               /\ \E a \in Arrays : q[a] # {}
               /\ \A a \in Arrays : q[a] # {} => 0 \in q[a]
               /\ Cardinality(UNION {{<<a, o>> : o \in q[a]} : a \in Arrays}) <= MaxAccesses}
All(q) == UNION {{<<a, o>> : o \in q[a]} : a \in DOMAIN q}
Count == Cardinality(All(pattern))
Slack == 2 * Count

InFront(q, a, o) == {x \in q[a] : x > o}
Least(s) == CHOOSE x \in s : \A y \in s : x <= y
DistanceOf(q, ac) == LET n == Least(InFront(q, ac[1], ac[2])) - ac[2] IN [rank |-> n, bytes |-> n]
Distances(q) == LET s == SetToSeq({ac \in All(q) : InFront(q, ac[1], ac[2]) # {}})
                IN [x \in 1..Len(s) |-> DistanceOf(q, s[x])]
Fronts(q) == Cardinality({a \in DOMAIN q : q[a] # {}})

Init == /\ pattern \in Patterns /\ cap \in 0..MaxCap
        /\ t = 0 /\ left = All(pattern) /\ stack = <<>> /\ missed = {}
Access ==
  /\ t <= Far + MaxCap + 2
  /\ LET ac == CHOOSE x \in left : TRUE          \* in some order
         d == <<ac[1], t + ac[2]>>
         hit == d \in Range(stack)
         rest == SelectSeq(stack, LAMBDA x : x # d)
         new == Append(rest, d)
     IN /\ stack' = (IF Len(new) > cap THEN Tail(new) ELSE new)
        /\ missed' = (IF left = All(pattern) THEN {} ELSE missed) \union (IF hit THEN {} ELSE {ac})
        /\ IF left = {ac} THEN left' = All(pattern) /\ t' = t + 1
                          ELSE left' = left \ {ac} /\ t' = t
  /\ UNCHANGED <<pattern, cap>>
Next == Access \/ (t > Far + MaxCap + 2 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Clear(q, c) == LET ds == Distances(q)
               IN \A x \in 1..Len(ds) : LET r == Requirement(ds, Fronts(q), ds[x])
                                        IN r + Slack < c \/ r - Slack > c
(* by then every access has passed what is in front of it *)
AsPredicted == (t > Far + 1 /\ left = All(pattern) /\ Clear(pattern, cap)) =>
   LET ds == Distances(pattern)
       all == 2147483647
   IN Cardinality(missed) = Misses(ds, Fronts(pattern), cap, all)
(* a larger cache never has more misses, whatever hits or misses is all accesses *)
Monotone == t = 0 => LET ds == Distances(pattern) IN
   \A c \in 0..MaxCap, all \in {0, 5, MaxCap} :
      /\ Misses(ds, Fronts(pattern), c + 1, all) <= Misses(ds, Fronts(pattern), c, all)
      /\ Misses(ds, Fronts(pattern), c, all) + Hits(ds, Fronts(pattern), c, all) = Count
      /\ Misses(ds, Fronts(pattern), c, all) \in 0..Count
=============================================================================
