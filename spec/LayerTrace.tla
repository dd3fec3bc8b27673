----------------------------- MODULE LayerTrace -----------------------------
(* Results of the layer condition analysis of the code, against LayerConditions and KernelLang. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, prog, consts, it, st, mem, log
R == INSTANCE KernelLang
L == INSTANCE LayerConditions
Trace == ndJsonDeserialize(IOEnv.TRACE)
unused == <<prog, consts, it, st, mem, log>>
E == Trace[l]
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)
Same(got, want, clause) == Check(got = want, clause, want)

RECURSIVE OneEach(_, _, _)
OneEach(as, seen, envs) ==
  IF as = <<>> THEN <<>>
  ELSE LET a == Head(as)  k == R!Key(a, envs)
       IN (IF k \in seen THEN <<>> ELSE <<a>>) \o OneEach(Tail(as), seen \union {k}, envs)
Of(as, n) == OneEach(SelectSeq(as, LAMBDA a : a.n = n), {}, E.envs)
Accesses(n) == Of(R!AllReads(E.prog), n) \o Of(R!AllWrites(E.prog), n)
Inner == E.prog.loops[Len(E.prog.loops)].i
(* arrays of which the address changes with the innermost loop *)
Streams(n) == \E a \in R!SeqToSet(Accesses(n)), v \in 1..Len(E.envs) :
   R!Element(E.prog, a, E.envs[v]) # R!Element(E.prog, a, [E.envs[v] EXCEPT ![Inner] = @ + 1])
Considered == SelectSeq(E.prog.order, Streams)

Rank(a) == R!Element(E.prog, a, E.rank)
InOrder(n) == SortSeq(Accesses(n), LAMBDA a, b : Rank(a) > Rank(b))
Width == R!SizeOf(E.prog.decls[1].type)
(* distances of one array, with constants cs *)
Gaps(n, cs) == LET s == InOrder(n) IN
   [x \in 1..(Len(s) - 1) |-> [rank |-> Rank(s[x]) - Rank(s[x+1]),
                               bytes |-> Width * (R!Element(E.prog, s[x], cs) - R!Element(E.prog, s[x+1], cs))]]
Distances(cs) == R!Concat([x \in 1..Len(Considered) |-> Gaps(Considered[x], cs)])
Fronts == Len(Considered)
Stores == R!Sum([x \in 1..Len(Considered) |-> Len(Of(R!AllWrites(E.prog), Considered[x]))])
All(cs) == R!Sum([x \in 1..Len(E.prog.order) |-> Width * R!Elements(E.prog, E.prog.order[x], cs)])

Numbers(ds, all, cache) == <<L!Hits(ds, Fronts, cache, all), L!Misses(ds, Fronts, cache, all),
                             L!Evicts(Stores, cache, all)>>
(* predicted numbers, for constants and sizes of caches *)
Predicted ==
  LET cs == E.consts @@ E.rank
      ds == Distances(cs)
      all == All(cs)
      n == [x \in 1..Len(E.caches) |-> Numbers(ds, all, E.caches[x])]
      k == Len(n)
  IN /\ Same(E.hits, [x \in 1..k |-> n[x][1]] \o <<n[k][2]>>, "hits")
     /\ Same(E.misses, [x \in 1..k |-> n[x][2]] \o <<0>>, "misses")
     /\ Same(E.evicts, [x \in 1..k |-> n[x][3]] \o <<0>>, "evicts")
     (* a line which misses is loaded from the next level, one which is evicted is stored there *)
     /\ Same(E.loads, [x \in 1..k |-> n[x][2]], "loads")
     /\ Same(E.stores, [x \in 1..k |-> n[x][3]], "stores")
(* conditions and what they stand for: E.truth[v][c] says which of the conditions of cache c hold with the *)
(* v-th constants, E.options[c] which numbers they lead to                                                 *)
Conditions ==
  \A v \in 1..Len(E.valuations) :
    LET cs == E.valuations[v] @@ E.rank
        ds == Distances(cs)
        all == All(cs)
    IN \A c \in 1..Len(E.caches) :
         LET holds == {x \in 1..Len(E.options[c]) : E.truth[v][c][x] = 1}
             first == CHOOSE x \in holds : \A y \in holds : x <= y
             want == Numbers(ds, all, E.caches[c])
         IN IF holds = {} THEN Bad("no condition holds", <<cs, want>>)
            ELSE Check(E.options[c][first] = want, "condition", <<cs, E.caches[c], E.options[c][first], want>>)
(* of any kernel which is accepted *)
Plain == LET n == R!Sum([x \in 1..Len(Considered) |-> Len(Accesses(Considered[x]))])
         IN \A x \in 1..Len(E.caches) :
              /\ Same(E.hits[x] + E.misses[x], n, "hits and misses")
              /\ Check(E.evicts[x] \in {0, Stores}, "evicts", Stores)
              /\ x > 1 /\ E.caches[x] >= E.caches[x-1] => Check(E.misses[x] <= E.misses[x-1], "monotone", E.caches)

(* Layer conditions say nothing about kernels which do not visit the elements in order, one by one *)
Stride(a, i) == R!Element(E.prog, a, [E.rank EXCEPT ![i] = @ + 1]) - R!Element(E.prog, a, E.rank)
Unsuitable ==
  \/ \E x \in 1..Len(E.prog.loops) : R!Val(E.prog.loops[x].d, E.rank) # 1
  \/ \E a \in R!SeqToSet(R!AllReads(E.prog) \o R!AllWrites(E.prog)) :
        \/ Stride(a, Inner) \notin {0, 1}
        \/ \E x, y \in 1..Len(E.prog.loops) :
             LET s == Stride(a, E.prog.loops[x].i)  t == Stride(a, E.prog.loops[y].i)
             IN x < y /\ s # 0 /\ t # 0 /\ s <= t

Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED unused
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
        /\ Check(~Unsuitable, "applied to an unsuitable kernel", "refused")
        /\ CASE E.what = "predicted" -> Predicted
             [] E.what = "conditions" -> Conditions
             [] E.what = "plain" -> Plain
Init == /\ l = 1 /\ prog = <<>> /\ consts = <<>> /\ it = 0 /\ st = 1 /\ mem = <<>> /\ log = <<>>
Spec == Init /\ [][Next]_<<l, unused>>
=============================================================================
