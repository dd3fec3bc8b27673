---------------------------- MODULE CommandLine ----------------------------
(* The command line tool: constant definitions, their expansion into runs, and  *)
(* the result store shared by successive invocations.                           *)
(*                                                                             *)
(* A definition is [key, kind, a, b, n, text] with kind                         *)
(*   "one"  a            "range" a-b          "lin" a-b:n        "log" a-b:nlog *)
(*   "bad"  (anything that is not a definition: must be rejected)               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt

CONSTANTS Kernels, Models, Cores, DefPool, MaxDefs, MaxInv, Emit

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

(* ---- meaning of one definition --------------------------------------------- *)
(* evenly spaced values are rounded; exact ties may go either way *)
NearLin(v, a, b, n, i) ==          \* |v - (a + i(b-a)/(n-1))| <= 1/2
  LET x == 2 * (v * (n - 1) - (a * (n - 1) + i * (b - a))) IN -(n - 1) <= x /\ x <= n - 1
NearLog(v, a, b, n, i) ==          \* (v - 1/2)^(n-1) <= a^(n-1-i) b^i <= (v + 1/2)^(n-1)
  LET X == Pow(a, n - 1 - i) * Pow(b, i) * Pow(2, n - 1)
  IN Pow(2 * v - 1, n - 1) <= X /\ X <= Pow(2 * v + 1, n - 1)
Invalid(d) == \/ d.kind = "bad"
              \/ d.kind = "range" /\ d.b < d.a
              \/ d.kind \in {"lin", "log"} /\ d.n < 2
              \/ d.kind = "log" /\ d.a = 0
ValuesOk(d, vs) ==
  CASE d.kind = "one" -> vs = <<d.a>>
    [] d.kind = "range" -> vs = [i \in 1..(d.b - d.a + 1) |-> d.a + i - 1]
    [] d.kind = "lin" -> /\ Len(vs) = d.n /\ vs[1] = d.a /\ vs[d.n] = d.b
                         /\ \A i \in 1..d.n : NearLin(vs[i], d.a, d.b, d.n, i - 1)
    [] d.kind = "log" -> /\ Len(vs) = d.n /\ vs[1] = d.a /\ vs[d.n] = d.b
                         /\ \A i \in 1..d.n : NearLog(vs[i], d.a, d.b, d.n, i - 1)

(* ---- expansion: definitions with their values -> combinations --------------- *)
(* defs: sequence of [key, vs]. "." gives values to every constant of the kernel *)
ValuesOf(name, defs) == UNION {Range(defs[i].vs) : i \in {j \in DOMAIN defs : defs[j].key \in {name, "."}}}
Complete(req, defs) == \A n \in req : ValuesOf(n, defs) # {}
RECURSIVE CombosOf(_, _)
(* a combination is the sequence of <<name, value>> in alphabetical order of names *)
Combos(req, defs) ==
  LET names == SetToSortSeq(req, LAMBDA a, b : (a = "M" /\ b # "M") \/ (a = "N" /\ b = "P"))
  IN CombosOf(names, defs)
CombosOf(names, defs) ==
  IF names = <<>> THEN {<<>>}
  ELSE {<< <<names[1], v>> >> \o c : v \in ValuesOf(names[1], defs), c \in CombosOf(Tail(names), defs)}

-----------------------------------------------------------------------------
(* State machine: invocations sharing one result store.                         *)
VARIABLES store, runs, hist, failed
vars == <<store, runs, hist, failed>>
Required(k) == CASE k = "k0" -> {} [] k = "k1" -> {"N"} [] k = "k2" -> {"M", "N"}
Vals(d) == CASE d.kind = "one" -> <<d.a>>
             [] d.kind = "range" -> [i \in 1..(d.b - d.a + 1) |-> d.a + i - 1]
WithVals(ds) == [i \in DOMAIN ds |-> [key |-> ds[i].key, vs |-> Vals(ds[i])]]
Inv == [kernel : Kernels, models : Models, cores : Cores,
        defs : UNION {[1..n -> DefPool] : n \in 0..MaxDefs}]

Init == store = <<>> /\ runs = <<>> /\ hist = <<>> /\ failed = FALSE
Put(st, id, v) == [x \in (DOMAIN st) \cup {id} |-> IF x = id THEN v ELSE st[x]]
RECURSIVE PutAll(_, _, _)
PutAll(st, ids, v) == IF ids = {} THEN st
   ELSE LET i == CHOOSE x \in ids : TRUE IN PutAll(Put(st, i, v), ids \ {i}, v)
Ids(inv, combos) == {<<inv.kernel, m, inv.cores, c>> : m \in Range(inv.models), c \in combos}
Invoke(inv) ==
  /\ Len(hist) < MaxInv
  /\ hist' = Append(hist, inv)
  /\ LET req == Required(inv.kernel)
         bad == \E i \in DOMAIN inv.defs : Invalid(inv.defs[i])
     IN IF bad \/ ~Complete(req, WithVals(inv.defs))
        THEN failed' = TRUE /\ runs' = <<>> /\ UNCHANGED store
        ELSE LET cs == Combos(req, WithVals(inv.defs)) IN
             /\ failed' = FALSE
             /\ runs' = SetToSeq(Ids(inv, cs))
             /\ store' = PutAll(store, Ids(inv, cs), Len(hist) + 1)
  /\ IF Emit /\ Len(hist') = MaxInv THEN PrintT(ToJson([h |-> hist'])) ELSE TRUE
Next == \E inv \in Inv : Invoke(inv)
Spec == Init /\ [][Next]_vars

NothingLost == [][DOMAIN store \subseteq DOMAIN store']_vars
FailureKeeps == [][failed' => store' = store]_vars
OnlyOwnEntriesChange ==
  [][\A id \in DOMAIN store : store'[id] # store[id] => id \in Range(runs')]_vars
OnceEach == Cardinality(Range(runs)) = Len(runs)
RunsStored == ~failed => Range(runs) \subseteq DOMAIN store
=============================================================================
