-------------------------- MODULE LayerConditions --------------------------
(*************************************************************************)
(* Layer conditions of a kernel: which of its accesses hit in a cache.   *)
(*                                                                       *)
(* The accesses of an array, in order of their addresses, are reached by *)
(* one datum after the other. The distance to the access in front tells  *)
(* how long ago a datum was used for the last time; the first access of  *)
(* each array always meets new data. Within that time each access has    *)
(* passed as many data, or as many as there are up to the access in      *)
(* front of it, if those are fewer. All of these have to fit.            *)
(*************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))

(* A distance is [rank, bytes]; ranks compare distances for arrays which are large in all dimensions. *)
(* fronts: number of accesses with nothing in front of them                                           *)
Requirement(ds, fronts, t) ==
  LET near == SelectSeq(ds, LAMBDA d : d.rank <= t.rank)
  IN SumOf([x \in 1..Len(near) |-> near[x].bytes]) + t.bytes * (Len(ds) - Len(near) + fronts)
Fits(ds, fronts, t, cache) == Requirement(ds, fronts, t) <= cache
(* distances of accesses which hit *)
Caught(ds, fronts, cache) ==
  SelectSeq(ds, LAMBDA d : \E x \in 1..Len(ds) : ds[x].rank >= d.rank /\ Fits(ds, fronts, ds[x], cache))

(* everything is held by a cache which is larger than all arrays *)
Hits(ds, fronts, cache, all) == IF cache > all THEN Len(ds) + fronts ELSE Len(Caught(ds, fronts, cache))
Misses(ds, fronts, cache, all) == Len(ds) + fronts - Hits(ds, fronts, cache, all)
Evicts(stores, cache, all) == IF cache > all THEN 0 ELSE stores
=============================================================================
