--------------------------- MODULE BenchRunTrace ---------------------------
(* Benchmarks of the code, run against a stand-in of likwid-perfctr: what it was asked for *)
(* and which figures have to be reported (as rationals over BigNat).                       *)
(*  begin: kernel, constants, machine; run: one call; end: results or a refusal            *)
EXTENDS BenchRun, FiniteSets, TLC, Json, IOUtils
VARIABLES l, b, prog, consts, it, st, mem, log
R == INSTANCE KernelLang
Q == INSTANCE BigNat
Trace == ndJsonDeserialize(IOEnv.TRACE)
unused == <<prog, consts, it, st, mem, log>>
E == Trace[l]
B == Trace[b]               \* the benchmark this belongs to
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)
Enough == 1500000           \* microseconds

(* ---- what is refused ------------------------------------------------------------------ *)
Refused == B.ignore = 0 /\ B.matches = 0
Drifted == B.ignore = 0 /\ B.drift = 1
NoCounters == B.noecm = 1 \/ B.cores > 1
Group == IF \E x \in 1..Len(B.groups) : B.groups[x] = "MEM" THEN "MEM" ELSE B.groups[1]
Cpus == IF B.cores = 1 THEN "S0:0" ELSE "S0:0-" \o ToString(B.cores - 1)

(* ---- figures --------------------------------------------------------------------------- *)
N(x) == Q!OfInt(x)
Frac(x, y) == <<N(x), N(y)>>
Times(q, x) == <<Q!BMul(q[1], N(x)), q[2]>>
Over(q, x) == <<q[1], Q!BMul(q[2], N(x))>>
Iter == R!Iterations(B.prog, B.consts)
Flops == R!Operations(B.prog, "+") + R!Operations(B.prog, "-") + R!Operations(B.prog, "*") + R!Operations(B.prog, "/")
Inner == B.prog.loops[Len(B.prog.loops)]
Bytes == R!SizeOf(R!Decl(B.prog, R!AllWrites(B.prog)[1].n).type) * R!Val(Inner.d, B.consts)
Lines == Over(Times(Times(<<N(Iter), N(1)>>, reps), Bytes), B.cl)          \* cache lines of work in a run
PerLine(v) == Q!QDiv(<<N(v), N(1)>>, Lines)
Figures == [
  tpr   |-> Over(Frac(took, 1000000), reps),
  iter  |-> Frac(Iter, 1),
  itcl  |-> Frac(B.cl, Bytes),
  cycl  |-> Q!QMul(Over(Times(Over(Frac(took, 1), reps), B.mhz), Iter), Frac(B.cl, Bytes)),
  mflop |-> Over(Times(Times(Frac(Flops, 1), Iter), reps), took),
  mlup  |-> Over(Times(Frac(Iter, 1), reps), took)]
Volume(q) == Over(Times(Frac(q, 1), 250000000), reps)                          \* of q quarters of a gigabyte
Counter(v) == [x \in DOMAIN v |-> PerLine(v[x])]
Transfers == [level \in DOMAIN E.counters |-> Counter(E.counters[level])]
Model == LET c == E.counters IN [
  T_OL   |-> PerLine(E.ol),
  T_nOL  |-> Over(PerLine(c.L1.loads), 2),
  T_L1L2 |-> Over(Times(PerLine(c.L2.loads + c.L2.stores), B.cl), B.thr[1]),
  T_L2L3 |-> Over(Times(PerLine(c.L3.loads + c.L3.stores), B.cl), B.thr[2]),
  T_MEM  |-> Over(Times(Times(PerLine(c.MEM.loads + c.MEM.stores), B.cl), B.mhz), B.bw)]

Run ==
  /\ Check(~Refused, "measured on another machine", "refused")
  /\ Check(~(Drifted /\ reps > 0), "went on at another clock", "refused")
  /\ Check(E.cpus = Cpus, "cores", Cpus)
  /\ Check(E.exe = B.exe, "executable", B.exe)
  /\ Check(E.args = B.args, "arguments", B.args)
  /\ IF E.counting = 0
     THEN /\ Check(TimedOK(E.reps), "repetitions of a timed run", reps)
          /\ Check(E.group = Group, "group", Group)
          /\ IF E.failed = 1 THEN phase' = "failed" /\ UNCHANGED <<reps, took, counted>>
             ELSE /\ phase' = (IF E.us >= Enough THEN "counting" ELSE "timing")
                  /\ reps' = E.reps /\ took' = E.us /\ UNCHANGED counted
     ELSE /\ Check(~NoCounters, "counters although there should be none", "")
          /\ Check(CountedOK(E.reps), "repetitions of a run with counters", reps)
          /\ IF E.failed = 1 THEN phase' = "failed" /\ UNCHANGED <<reps, took, counted>>
             ELSE counted' = counted + 1 /\ UNCHANGED <<phase, reps, took>>
End ==
  /\ IF E.results = 0
     THEN Check(Refused \/ (Drifted /\ reps > 0) \/ phase = "failed", "no results", phase)
     ELSE /\ Check(~Refused /\ ~Drifted, "reported although the machine is another one", "refused")
          /\ Check(FinishOK, "reported without a run that was long enough", phase)
          /\ Check(E.openmp = (IF B.cores > 1 THEN 1 ELSE 0), "executable for several cores", B.cores)
          /\ Check(E.ecm = (IF NoCounters THEN 0 ELSE 1), "model from counters", ~NoCounters)
          /\ IF phase = "counting"
             THEN PrintT(ToJson([line |-> l, figures |-> Figures]))
                  /\ (IF E.volume >= 0 THEN PrintT(ToJson([line |-> l, volume |-> Volume(E.volume)])) ELSE TRUE)
                  /\ (IF E.ecm = 1 THEN PrintT(ToJson([line |-> l, transfers |-> Transfers, model |-> Model])) ELSE TRUE)
             ELSE TRUE
  /\ phase' = "done" /\ UNCHANGED <<reps, took, counted>>
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED unused
        /\ CASE E.ev = "begin" -> b' = l /\ phase' = "timing" /\ reps' = 0 /\ took' = 0 /\ counted' = 0
             [] E.ev = "run" -> Run /\ b' = b
             [] E.ev = "end" -> End /\ b' = b
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Init == /\ l = 1 /\ b = 1 /\ Begin
        /\ prog = <<>> /\ consts = <<>> /\ it = 0 /\ st = 1 /\ mem = <<>> /\ log = <<>>
Spec == Init /\ [][Next]_<<l, b, bvars, unused>>
=============================================================================
