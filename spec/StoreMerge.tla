------------------------------ MODULE StoreMerge ------------------------------
(* Merging result stores. A store is a tree: [leaf |-> v] or [kids |-> f] with   *)
(* f a function from keys to trees. The destination absorbs one source after     *)
(* another; the sources stay as they are.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Leaves, Depth, MaxSources, Emit
Leaf(v) == [leaf |-> v]
Node(f) == [kids |-> f]
IsNode(t) == "kids" \in DOMAIN t
RECURSIVE Trees(_)
NodesOver(S) == UNION {{Node(f) : f \in [K -> S]} : K \in SUBSET Keys}
Trees(d) == IF d = 0 THEN {Leaf(v) : v \in Leaves} ELSE {Leaf(v) : v \in Leaves} \cup NodesOver(Trees(d - 1))
Stores == NodesOver(Trees(Depth - 1))

RECURSIVE Merge(_, _)
Merge(a, b) ==
  IF IsNode(a) /\ IsNode(b)
  THEN Node([k \in (DOMAIN a.kids) \cup (DOMAIN b.kids) |->
         IF k \notin DOMAIN a.kids THEN b.kids[k]
         ELSE IF k \notin DOMAIN b.kids THEN a.kids[k] ELSE Merge(a.kids[k], b.kids[k])])
  ELSE b

(* entries: <<path, tree>> of all inner positions *)
RECURSIVE Paths(_)
Paths(t) == IF IsNode(t)
            THEN {<<>>} \cup UNION {{<<k>> \o p : p \in Paths(t.kids[k])} : k \in DOMAIN t.kids}
            ELSE {<<>>}
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t.kids[Head(p)], Tail(p))
Prefix(p, n) == SubSeq(p, 1, n)

VARIABLES dest, used, before
vars == <<dest, used, before>>
Init == dest \in Stores /\ used = <<dest>> /\ before = dest
Absorb(s) == /\ Len(used) <= MaxSources
             /\ before' = dest /\ dest' = Merge(dest, s) /\ used' = Append(used, s)
             /\ IF Emit /\ Len(used') = MaxSources + 1
                THEN PrintT(ToJson([used |-> used', result |-> dest'])) ELSE TRUE
Next == \E s \in Stores : Absorb(s)
Spec == Init /\ [][Next]_vars
Last == used[Len(used)]
(* every entry of the last source is there *)
SourceKept == \A p \in Paths(Last) : p \in Paths(dest) /\ (~IsNode(At(Last, p)) => At(dest, p) = At(Last, p))
(* every earlier result survives unless the source holds something at its place *)
EarlierKept == \A p \in Paths(before) :
   \/ p \in Paths(dest) /\ (IsNode(At(before, p)) \/ At(dest, p) = At(before, p) \/ p \in Paths(Last))
   \/ \E n \in 0..(Len(p) - 1) : Prefix(p, n) \in Paths(Last) /\ ~IsNode(At(Last, Prefix(p, n)))
(* nothing appears from nowhere *)
NothingNew == \A p \in Paths(dest) : p \in Paths(before) \cup Paths(Last)
Idempotent == Merge(dest, Last) = dest
=============================================================================
