---------------------------- MODULE MeasureTrace ----------------------------
(* What the cache simulator was given and asked, and what was reported, against CacheMeasure and KernelLang. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, k,
          total, pos, swept, full, feeds, phase, first, last,
          prog, consts, it, st, mem, log
R == INSTANCE KernelLang
M == INSTANCE CacheMeasure
Trace == ndJsonDeserialize(IOEnv.TRACE)
unused == <<it, st, mem, log>>
measure == <<total, pos, swept, full, feeds, phase, first, last>>
E == Trace[l]
K == Trace[k]           \* the event which describes the kernel
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)

CountOf(s, x) == Cardinality({y \in 1..Len(s) : s[y] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in 1..Len(s) : CountOf(s, s[x]) = CountOf(t, s[x])

Size == R!SizeOf(prog.decls[1].type)
Step == R!Val(prog.loops[Len(prog.loops)].d, consts)
Bytes == Size * Step                    \* of work per iteration
Of(as, t) == LET env == R!At(prog, consts, t)
             IN [x \in 1..Len(as) |-> R!Address(prog, as[x], env, consts, K.cl, 0)]
Least(s) == CHOOSE x \in R!SeqToSet(s) : \A y \in R!SeqToSet(s) : x <= y
Guide == LET sd == R!Stored(prog, K.envs) IN IF sd # <<>> THEN sd ELSE R!Loaded(prog, K.envs)
(* The first store (or load) of iteration t is at a boundary between lines -- where it advances steadily *)
(* around t and ever is at one                                                                           *)
Boundary(t) ==
  LET g == Guide
      n == (K.cl + Bytes - 1) \div Bytes
      near == {u \in (t - n)..(t + n) : u >= 0 /\ u < total}
      at == [u \in near |-> Least(Of(g, u))]
  IN \/ t \notin near
     \/ \E u \in near : u + 1 \in near /\ at[u+1] - at[u] # Bytes
     \/ K.cl % Bytes # 0 \/ (at[t] % K.cl) % Bytes # 0
     \/ at[t] % K.cl = 0

Feed ==
  LET ld == R!Loaded(prog, K.envs)
      sd == R!Stored(prog, K.envs)
  IN /\ Check(M!FeedOK(E.n), "order", <<phase, pos, total, E.n>>)
     /\ Check(E.length = Size, "size of accesses", Size)
     /\ phase = "measure" /\ pos = first => Check(Boundary(pos), "start of a line", pos)
     /\ M!FeedOK(E.n) =>
          \A x \in 1..Len(E.samples) :
             LET t == M!Start + E.samples[x].at
             IN /\ Check(SameBag(E.samples[x].loads, Of(ld, t)), "loads", <<t, Of(ld, t)>>)
                /\ Check(SameBag(E.samples[x].stores, Of(sd, t)), "stores", <<t, Of(sd, t)>>)
     /\ IF M!FeedOK(E.n) THEN M!Feed(E.n) ELSE UNCHANGED measure

(* E.results: <<what, level, numerator, denominator, count of the simulator>> *)
Results ==
  LET bytes == (pos - first) * Bytes
      g == M!GCD(bytes, K.cl)
  IN /\ Check(phase = "measure" /\ pos > first, "nothing measured", <<phase, first, pos>>)
     /\ phase = "measure" =>
          /\ Check(Boundary(pos), "end of a line", pos)
          /\ \A x \in 1..Len(E.results) :
               LET r == E.results[x]
               IN Check(M!PerLine(r[5], bytes, K.cl, r[3], r[4]), "result",
                        <<r, "lines", bytes \div g, K.cl \div g>>)
          /\ Check(E.lines[1] * (K.cl \div g) = E.lines[2] * (bytes \div g), "lines", <<bytes, K.cl>>)
     /\ IF phase = "measure" /\ pos > first THEN M!Stop ELSE UNCHANGED measure

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1 /\ UNCHANGED unused
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
  /\ IF E.what = "kernel"
     THEN /\ k' = l /\ prog' = E.prog /\ consts' = E.consts
          /\ total' = R!Iterations(E.prog, E.consts)
          /\ pos' = 0 /\ swept' = FALSE /\ full' = FALSE /\ feeds' = 0 /\ phase' = "warm"
          /\ first' = 0 /\ last' = 0
     ELSE /\ UNCHANGED <<k, prog, consts>>
          /\ CASE E.what = "feed" -> Feed
               [] E.what = "count" -> M!Count(E.n)
               [] E.what = "reset" ->
                    /\ Check(phase = "warm", "counters reset", phase)
                    /\ Check(M!Warm(M!Patience), "cold caches", <<full, swept, feeds>>)
                    /\ phase' = "measure" /\ first' = M!Start /\ pos' = M!Start
                    /\ UNCHANGED <<total, swept, full, feeds, last>>
               [] E.what = "results" -> Results
               [] E.what = "rejected" ->
                    /\ Check(~M!MustMeasure(K.cl \div Size), "rejected", total)
                    /\ UNCHANGED measure
Init == /\ l = 1 /\ k = 1
        /\ prog = <<>> /\ consts = <<>> /\ it = 0 /\ st = 1 /\ mem = <<>> /\ log = <<>>
        /\ M!Begin(0)
Spec == Init /\ [][Next]_<<l, k, measure, prog, consts, unused>>
=============================================================================
