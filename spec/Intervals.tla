------------------------------ MODULE Intervals ------------------------------
(* Sets of integers held as lists of half-open ranges [lo, hi).                 *)
(*                                                                             *)
(* Part 1: abstract meaning (Abs) and canonical form (Canon).                   *)
(* Part 2: the normalisation algorithm as a state machine (sort, then one       *)
(*         merge step per action), checked to keep the meaning and to reach the *)
(*         canonical form and terminate.                                        *)
(* Every initial state is one constructor call; the terminal states are printed *)
(* as JSON and replayed into the real class (checks/c19.py).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS MaxV,        \* endpoints are 0..MaxV
          MaxLen,      \* ranges per constructor call
          Emit         \* print the cases

-----------------------------------------------------------------------------
Abs(rs) == UNION { (rs[i][1])..(rs[i][2] - 1) : i \in DOMAIN rs }

(* canonical form of a finite set of integers: maximal ranges, ascending *)
Starts(S) == {x \in S : (x - 1) \notin S}
RangeEnd(S, x) == Min({y \in x..(Max(S) + 1) : y \notin S})
Canon(S) == LET st == SetToSortSeq(Starts(S), LAMBDA a, b : a < b)
            IN  [i \in DOMAIN st |-> <<st[i], RangeEnd(S, st[i])>>]

(* the same canonical form computed on ranges only (used for large numbers) *)
RECURSIVE MergeSorted(_, _)
MergeSorted(acc, rest) ==
  IF rest = <<>> THEN acc
  ELSE IF acc = <<>> \/ acc[Len(acc)][2] < rest[1][1]
       THEN MergeSorted(Append(acc, rest[1]), Tail(rest))
       ELSE LET l == acc[Len(acc)]
                h == IF rest[1][2] > l[2] THEN rest[1][2] ELSE l[2]
            IN MergeSorted([acc EXCEPT ![Len(acc)] = <<l[1], h>>], Tail(rest))
NonEmpty(rs) == SelectSeq(rs, LAMBDA r : r[2] > r[1])
Sorted(rs) == SortSeq(rs, LAMBDA a, b : a[1] < b[1])
Normal(rs) == MergeSorted(<<>>, Sorted(NonEmpty(rs)))

Total(rs) == FoldLeft(LAMBDA acc, r : acc + (r[2] - r[1]), 0, rs)
Member(rs, x) == \E i \in DOMAIN rs : rs[i][1] <= x /\ x < rs[i][2]

-----------------------------------------------------------------------------
VARIABLES input, data, pos, pc
vars == <<input, data, pos, pc>>

Ranges == (0..MaxV) \X (0..MaxV)
Inputs == UNION {[1..n -> Ranges] : n \in 0..MaxLen}

Init == /\ input \in Inputs
        /\ data = <<>> /\ pos = 1 /\ pc = "filter"

Filter == /\ pc = "filter"
          /\ data' = NonEmpty(input) /\ pc' = "order"
          /\ UNCHANGED <<input, pos>>
Order == /\ pc = "order"
         /\ data' = Sorted(data) /\ pc' = "merge" /\ UNCHANGED <<input, pos>>
Merge == /\ pc = "merge" /\ pos < Len(data)
         /\ data[pos][2] >= data[pos + 1][1]
         /\ data' = [i \in 1..(Len(data) - 1) |->
               IF i < pos THEN data[i]
               ELSE IF i = pos THEN <<data[pos][1], Max({data[pos][2], data[pos + 1][2]})>>
               ELSE data[i + 1]]
         /\ UNCHANGED <<input, pos, pc>>      \* stay: the grown range may reach the next one
Skip == /\ pc = "merge" /\ pos < Len(data)
        /\ data[pos][2] < data[pos + 1][1]
        /\ pos' = pos + 1 /\ UNCHANGED <<input, data, pc>>
Finish == /\ pc = "merge" /\ pos >= Len(data)
          /\ pc' = "done" /\ UNCHANGED <<input, data, pos>>
          /\ IF Emit THEN PrintT(ToJson([args |-> input, data |-> data, len |-> Total(data)]))
                     ELSE TRUE
Done == pc = "done" /\ UNCHANGED vars
Next == Filter \/ Order \/ Merge \/ Skip \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* properties *)
MeaningKept == pc # "filter" => Abs(data) = Abs(input)
Disjoint == pc = "done" => \A i \in 1..(Len(data) - 1) : data[i][2] < data[i + 1][1]
ReachesCanon == pc = "done" => data = Canon(Abs(input))
LengthIsCardinality == pc = "done" => Total(data) = Cardinality(Abs(input))
MembershipExact == pc = "done" => \A x \in -1..(MaxV + 1) : Member(data, x) <=> x \in Abs(input)
NormalAgrees == pc = "done" => Normal(input) = data
Terminates == <>(pc = "done")
=============================================================================
