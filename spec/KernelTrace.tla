----------------------------- MODULE KernelTrace -----------------------------
(* Recorded parses, addresses and executions of generated code, against KernelLang. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, running, prog, consts, it, st, mem, log
R == INSTANCE KernelLang
Trace == ndJsonDeserialize(IOEnv.TRACE)
machine == <<prog, consts, it, st, mem, log>>
E == Trace[l]
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)
Same(got, want, clause) == Check(got = want, clause, want)

(* bags as sequences *)
CountOf(s, x) == Cardinality({y \in 1..Len(s) : s[y] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in 1..Len(s) : CountOf(s, s[x]) = CountOf(t, s[x])

Ops == {"+", "-", "*", "/"}
Parse ==
  LET p == E.prog  envs == E.envs
      V(e) == [v \in 1..Len(envs) |-> R!Val(e, envs[v])]
  IN IF E.accepted = 0 THEN Check(~R!MustAccept(p), "rejected", "accepted")
     ELSE IF ~R!MayAccept(p) THEN Bad("accepted", "rejected")
     ELSE /\ Same(E.loops, [x \in 1..Len(p.loops) |-> <<p.loops[x].i, V(p.loops[x].s), V(p.loops[x].e), V(p.loops[x].d)>>],
                  "loops")
          /\ Same(R!SeqToSet(E.variables),
                  {<<p.decls[x].name, [d \in 1..Len(p.decls[x].dims) |-> V(p.decls[x].dims[d])], p.decls[x].type>>
                     : x \in 1..Len(p.decls)}, "variables")
          /\ Same(R!SeqToSet(E.sources), R!Keys(R!AllReads(p), envs), "sources")
          /\ Same(R!SeqToSet(E.destinations), R!Keys(R!AllWrites(p), envs), "destinations")
          /\ \A op \in Ops : Same(E.flops[op], R!Operations(p, op), "operations")
          /\ Same(E.others, 0, "operations")
          /\ Same(E.datatype, p.decls[1].type, "datatype")
          /\ Same(R!SeqToSet(E.sizes),
                  {<<p.decls[x].name, [v \in 1..Len(envs) |-> R!Elements(p, p.decls[x].name, envs[v])]>>
                     : x \in {y \in 1..Len(p.decls) : p.decls[y].dims # <<>>}}, "sizes")
          /\ Same(E.length, [v \in 1..Len(envs) |-> R!Iterations(p, envs[v])], "iterations")

Addresses ==
  LET p == E.prog  envs == E.envs
      ld == R!Loaded(p, envs)
      sd == R!Stored(p, envs)
      cs == E.consts
      Of(as, env) == [x \in 1..Len(as) |-> R!Address(p, as[x], env, cs, E.cl, E.spacing)]
  IN /\ Check(\/ Len(E.loads) = Len(E.iterations) /\ Len(E.stores) = Len(E.iterations)
              \/ ld = <<>> /\ sd = <<>> /\ E.loads = <<>> /\ E.stores = <<>>, "listed", Len(E.iterations))
     /\ \A y \in (1..Len(E.iterations)) \cap (1..Len(E.loads)) :
           LET env == R!At(p, cs, E.iterations[y])
               a == Of(ld, env)
               b == Of(sd, env)
           IN /\ Check(SameBag(E.loads[y], a), "loads", <<E.iterations[y], a>>)
              /\ Check(SameBag(E.stores[y], b), "stores", <<E.iterations[y], b>>)
     /\ Same(E.length, R!Iterations(p, cs), "iterations")
     /\ Same(R!SeqToSet(E.bytes), {<<p.order[x], R!Elements(p, p.order[x], cs) * R!SizeOf(p.decls[1].type)>>
                                    : x \in 1..Len(p.order)}, "bytes")

(* the same for large arrays: a few of the iterations, addresses modulo E.moduli *)
Far ==
  LET p == E.prog  envs == E.envs
      ld == R!Loaded(p, envs)
      sd == R!Stored(p, envs)
      cs == E.consts
      Of(as, env) == [x \in 1..Len(as) |->
                        [y \in 1..Len(E.moduli) |-> R!AddressMod(p, as[x], env, cs, E.cl, E.spacing, E.moduli[y])]]
  IN /\ Check(E.count = E.asked \/ (ld = <<>> /\ sd = <<>> /\ E.count = 0), "listed", E.asked)
     /\ \A y \in (1..Len(E.iterations)) \cap (1..Len(E.loads)) :
           LET env == R!At(p, cs, E.iterations[y])
               a == Of(ld, env)
               b == Of(sd, env)
           IN /\ Check(SameBag(E.loads[y], a), "loads", <<E.iterations[y], a>>)
              /\ Check(SameBag(E.stores[y], b), "stores", <<E.iterations[y], b>>)
     /\ Same(E.length, R!Iterations(p, cs), "iterations")
     /\ Same(R!SeqToSet(E.bytes),
             {<<p.order[x], [y \in 1..Len(E.moduli) |->
                               (R!ElementsMod(p, p.order[x], cs, E.moduli[y]) * R!SizeOf(p.decls[1].type)) % E.moduli[y]]>>
                : x \in 1..Len(p.order)}, "bytes")

(* expressions of the element each distinct access goes to, and distances of neighbours in that list *)
RECURSIVE OneEach(_, _, _)
OneEach(as, seen, envs) ==
  IF as = <<>> THEN <<>>
  ELSE LET a == Head(as)  k == R!Key(a, envs)
       IN (IF k \in seen THEN <<>> ELSE <<a>>) \o OneEach(Tail(as), seen \union {k}, envs)
Distances ==
  LET p == E.prog  envs == E.envs
      Flat(a) == [v \in 1..Len(envs) |-> R!Element(p, a, envs[v])]
      All(as) == LET s == OneEach(SelectSeq(as, LAMBDA a : R!IsArray(p, a.n) /\ a.n = E.name), {}, envs)
                 IN [x \in 1..Len(s) |-> Flat(s[x])]
      want == (IF E.reads = 1 THEN All(R!AllReads(p)) ELSE <<>>) \o (IF E.writes = 1 THEN All(R!AllWrites(p)) ELSE <<>>)
  IN /\ Check(SameBag(E.flat, want), "elements", want)
     /\ Same(E.distances, [x \in 1..(Len(E.flat) - 1) |-> [v \in 1..Len(envs) |-> E.flat[x][v] - E.flat[x+1][v]]],
             "distances")

(* main program: calls of the kernel, and what it is given *)
Main ==
  LET p == E.prog IN
  /\ Same(E.order, <<"call", "call", "start">> \o [y \in 1..E.repeat |-> "call"] \o <<"stop">>, "calls")
  /\ \A y \in 1..Len(E.calls) :
       /\ Same(E.calls[y].consts, E.consts, "constants")
       /\ Same(E.calls[y].big, E.big, "constants")
       /\ \A x \in 1..Len(p.order) :
             LET n == p.order[x]
                 want == R!Elements(p, n, E.consts) * R!SizeOf(p.decls[1].type)
             IN /\ Check(E.calls[y].room[n] >= want, "room", <<n, want>>)
                /\ Check(E.calls[y].start[n] % E.cl = 0, "alignment", n)
                /\ Check(E.calls[y].alias[n] = 1, "separate", n)
  (* whatever the kernel accesses was touched before *)
  /\ \A x \in 1..Len(E.set) :
        LET n == E.set[x][1]
            elements == R!SeqToSet(E.set[x][2])
            used == {R!Element(p, a, R!At(p, E.consts, t)) :
                       a \in {b \in R!SeqToSet(R!AllReads(p)) \union R!SeqToSet(R!AllWrites(p)) : b.n = n},
                       t \in 0..(R!Iterations(p, E.consts) - 1)}
        IN Check(used = elements, "initialised", <<n, used>>)

Single == CASE E.what = "parse" -> Parse [] E.what = "addresses" -> Addresses [] E.what = "far" -> Far [] E.what = "distances" -> Distances
            [] E.what = "main" -> Main
Advance == /\ l' = l + 1 /\ running' = FALSE
           /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Next ==
  /\ l <= Len(Trace)
  /\ CASE E.what # "execution" -> Single /\ Advance /\ UNCHANGED machine
       [] E.what = "execution" /\ ~running ->
            /\ running' = TRUE /\ l' = l
            /\ prog' = E.prog /\ consts' = E.consts /\ it' = 0 /\ st' = 1 /\ mem' = E.before /\ log' = <<>>
       [] E.what = "execution" /\ running /\ R!Finished ->
            /\ \A x \in DOMAIN mem : Check(E.after[x] = mem[x], "contents", <<x, mem[x]>>)
            /\ Same(E.outside, 0, "outside")
            /\ Advance /\ UNCHANGED machine
       [] OTHER -> R!Statement /\ UNCHANGED <<l, running>>
Init == /\ l = 1 /\ running = FALSE
        /\ prog = <<>> /\ consts = <<>> /\ it = 0 /\ st = 1 /\ mem = <<>> /\ log = <<>>
Spec == Init /\ [][Next]_<<l, running, machine>>
=============================================================================
