-------------------------- MODULE MachineBenchTrace --------------------------
(* Runs of the generator of machine files, the calls of likwid-bench they made and the file they left, *)
(* against MachineBench: sizes, completeness, truth of every result, and what is kept.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, hw, calls, file
vars == <<l, hw, calls, file>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)
Max2(a, b) == IF a < b THEN b ELSE a
Range(s) == {s[i] : i \in 1..Len(s)}
SumOver(S) == LET RECURSIVE F(_)
                  F(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN x + F(T \ {x})
              IN F(S)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

(* ---- sizes: two thirds of the level, but well more than the level before; memory: far more than all ---- *)
(* of c cores; sizes of a level are given in kB per group of cores                                          *)
InUse(h, x, c) == Max2(x.kB * c, x.kB * x.group)      \* times group, kB
Share(h, x, c) == (InUse(h, x, c) * 66) \div (100 * x.group)
Exact(h, x, c) == (InUse(h, x, c) * 66) % (100 * x.group) = 0
Surpass(h, x, c) == (InUse(h, x, c) * 12) \div (10 * x.group)
ExactS(h, x, c) == (InUse(h, x, c) * 12) % (10 * x.group) = 0
CacheSizes(h, i, c) ==
  LET a == Share(h, h.levels[i], c)
      b == IF i = 1 THEN 0 ELSE Surpass(h, h.levels[i-1], c)
      m == Max2(a, b)
  IN {m} \cup IF (m = a /\ Exact(h, h.levels[i], c)) \/ (i > 1 /\ m = b /\ ExactS(h, h.levels[i-1], c))
              THEN {m - 1} ELSE {}
Sizes(h, i, c) == IF i <= Len(h.levels) THEN CacheSizes(h, i, c)
                  ELSE LET s == h.levels[Len(h.levels)].kB * 15 IN {s, s - 1}
LevelName(h, i) == IF i <= Len(h.levels) THEN h.levels[i].name ELSE "MEM"
Entries(f, name, t) == {i \in 1..Len(f.entries) : f.entries[i].level = name /\ f.entries[i].tpc = t}
AsNow(h, e, i, t) ==
  /\ e.cores = [c \in 1..h.cores |-> c]
  /\ e.threads = [c \in 1..h.cores |-> c * t]
  /\ Len(e.kB) = h.cores
  /\ \A c \in 1..h.cores : e.kB[c] \in Sizes(h, i, c)
Near(a, b) == 100 * (IF a > b THEN a - b ELSE b - a) < a + 100
(* sizes which differ by less than one percent may be kept *)
AboutNow(h, e, i, t) ==
  /\ e.cores = [c \in 1..h.cores |-> c]
  /\ e.threads = [c \in 1..h.cores |-> c * t]
  /\ Len(e.kB) = h.cores
  /\ \A c \in 1..h.cores : \E s \in Sizes(h, i, c) : Near(e.kB[c], s)

(* ---- truth of results: each is the best of consecutive runs of the benchmark it belongs to ---- *)
CallOf(cs, bw) == CHOOSE i \in 1..Len(cs) : cs[i].bw = bw
Known(cs, bw) == \E i \in 1..Len(cs) : cs[i].bw = bw /\ ~cs[i].failed
Fastest(f, k) == LET S == {i \in 1..Len(f.kernels) : f.kernels[i].name = k}
                 IN IF S = {} THEN "" ELSE f.kernels[CHOOSE i \in S : TRUE].fastest
PointTrue(f, cs, e, s, i) ==
  LET st == s.stats[i]
  IN /\ Len(st) > 0
     /\ s.results[i] \in Range(st) /\ \A b \in Range(st) : b <= s.results[i]
     /\ \A b \in Range(st) : Known(cs, b)
     /\ \A j \in 1..Len(st) :
          LET c == cs[CallOf(cs, st[j])]
          IN /\ c.variant = Fastest(f, s.kernel) /\ c.kB = e.kB[i] /\ c.threads = e.threads[i]
             /\ c.stride = hw.threads \div e.tpc
             /\ j > 1 => CallOf(cs, st[j]) = CallOf(cs, st[j-1]) + 1
AllStats(f) == [x \in {<<i, j, p, q>> \in (1..20) \X (1..20) \X (1..20) \X (1..40) :
                          i <= Len(f.entries) /\ j <= Len(f.entries[i].series)
                          /\ p <= Len(f.entries[i].series[j].stats)
                          /\ q <= Len(f.entries[i].series[j].stats[p])} |->
                 f.entries[x[1]].series[x[2]].stats[x[3]][x[4]]]
Used(f) == UNION {UNION {UNION {Range(f.entries[i].series[j].stats[p]) :
                                p \in 1..Len(f.entries[i].series[j].stats)} :
                         j \in 1..Len(f.entries[i].series)} : i \in 1..Len(f.entries)}
UsedCount(f) == Sum([i \in 1..Len(f.entries) |-> Sum([j \in 1..Len(f.entries[i].series) |->
                  Sum([p \in 1..Len(f.entries[i].series[j].stats) |-> Len(f.entries[i].series[j].stats[p])])])])
Repetitions(f) == LET S == {i \in 1..Len(f.entries) : \E j \in 1..Len(f.entries[i].series) :
                              f.entries[i].series[j].stats # <<>>}
                  IN IF S = {} THEN 0
                     ELSE LET i == CHOOSE x \in S : TRUE
                              j == CHOOSE x \in 1..Len(f.entries[i].series) : f.entries[i].series[x].stats # <<>>
                          IN Len(f.entries[i].series[j].stats[1])
Truth(f, cs) ==
  \A i \in 1..Len(f.entries) : \A j \in 1..Len(f.entries[i].series) :
    LET e == f.entries[i] s == e.series[j]
    IN /\ Check(Len(s.results) = Len(s.stats) /\ Len(s.results) <= Len(e.kB), "one result per point", <<e.level, e.tpc, s.kernel>>)
       /\ \A p \in 1..Len(s.results) :
            Check(p > Len(s.stats) \/ p > Len(e.kB) \/ PointTrue(f, cs, e, s, p), "result is of its point",
                  <<e.level, e.tpc, s.kernel, p>>)

(* ---- the fastest variant of every benchmark is used ---- *)
Candidates(k) == {c \in Range(E.variants) : c.kernel = k}
Probes(f, k) == {i \in 1..Len(E.calls) :
                   /\ \E c \in Candidates(k) : c.name = E.calls[i].variant
                   /\ E.calls[i].bw \notin Used(f)}
ChoiceOK(f, k) ==
  LET P == Probes(f, k)
      ok == {i \in P : ~E.calls[i].failed}
      was == Fastest(file, k)
      now == Fastest(f, k)
  IN \/ was # "" /\ now = was
     \/ now = "" /\ E.end # "finished"
     \/ /\ \A c \in Candidates(k) : \E i \in P : E.calls[i].variant = c.name
        /\ ok # {} /\ \E i \in ok : E.calls[i].variant = now /\ \A j \in ok : E.calls[j].bw <= E.calls[i].bw

Kernels == {E.variants[i].kernel : i \in 1..Len(E.variants)}
SeriesOf(f, name, t, k) == {<<i, j>> \in (1..Len(f.entries)) \X (1..40) :
    /\ f.entries[i].level = name /\ f.entries[i].tpc = t
    /\ j <= Len(f.entries[i].series) /\ f.entries[i].series[j].kernel = k}
FullNow(f, i, t, k) ==
  \E x \in SeriesOf(f, LevelName(hw, i), t, k) :
     /\ AsNow(hw, f.entries[x[1]], i, t)
     /\ Len(f.entries[x[1]].series[x[2]].results) = hw.cores
     /\ Len(f.entries[x[1]].series[x[2]].stats) = hw.cores
Levels == 1..(Len(hw.levels) + 1)
Tpcs == 1..hw.threads
Complete(f) ==
  \A i \in Levels : \A t \in Tpcs : \A k \in Kernels :
     Check(\E x \in SeriesOf(f, LevelName(hw, i), t, k) : Len(f.entries[x[1]].series[x[2]].results) = hw.cores,
           "everything is measured", <<LevelName(hw, i), t, k>>)
Stated(f) ==
  \A i \in Levels : \A t \in Tpcs : \A x \in Entries(f, LevelName(hw, i), t) :
     Check(AboutNow(hw, f.entries[x], i, t), "sizes are those of the machine",
           <<LevelName(hw, i), t, [c \in 1..hw.cores |-> Sizes(hw, i, c)]>>)
Keeps(f) ==
  \A i \in Levels : \A t \in Tpcs : \A k \in Kernels :
     FullNow(file, i, t, k) =>
       Check(\E x \in SeriesOf(file, LevelName(hw, i), t, k) : \E y \in SeriesOf(f, LevelName(hw, i), t, k) :
                /\ file.entries[x[1]].series[x[2]].results = f.entries[y[1]].series[y[2]].results
                /\ file.entries[x[1]].series[x[2]].stats = f.entries[y[1]].series[y[2]].stats,
             "finished series are kept", <<LevelName(hw, i), t, k>>)
(* what was measured is saved, but for the point at hand *)
Lost(f) == {i \in 1..Len(E.calls) : ~E.calls[i].failed /\ E.calls[i].bw \notin Used(f)}
Saves(f) == LET reps == Repetitions(f)
            IN reps > 0 => Check(Cardinality(Lost(f)) <= reps + Len(E.variants), "points are saved",
                                 <<Cardinality(Lost(f)), reps>>)

Empty == [entries |-> <<>>, kernels |-> <<>>]
Init == l = 1 /\ hw = [cores |-> 0, threads |-> 0, levels |-> <<>>] /\ calls = <<>> /\ file = Empty
Machine == /\ E.ev = "machine" /\ hw' = E.hw
           /\ IF E.fresh THEN calls' = <<>> /\ file' = Empty ELSE UNCHANGED <<calls, file>>
Run == /\ E.ev = "run"
       /\ Check(E.loads, "the file can be loaded", E.end)
       /\ LET f == IF E.loads THEN E.file ELSE Empty
              cs == calls \o E.calls
          IN /\ calls' = cs /\ file' = f
             /\ E.loads =>
                  /\ Check(E.rest, "the rest of the description stays", E.end)
                  /\ Truth(f, cs)
                  /\ Check(UsedCount(f) = Cardinality(Used(f)), "no result is used twice", 0)
                  /\ Keeps(f)
                  /\ Saves(f)
                  /\ \A k \in Kernels : Check(ChoiceOK(f, k), "the fastest variant is used", <<k, Fastest(f, k)>>)
                  /\ E.end = "finished" => Complete(f) /\ Stated(f)
             /\ Check(E.end = E.expected, "run ends as it should", E.expected)
       /\ UNCHANGED hw
(* ---- what is read from likwid-topology ---- *)
Readout ==
  /\ E.ev = "readout"
  /\ LET m == E.machine g == E.got
         cores == m.cores * m.sockets
         numa == Max2(m.numa \div m.sockets, 1)
     IN /\ Check(g.sockets = m.sockets /\ g.cores = m.cores /\ g.threads = m.threads, "topology", m)
        /\ Check(g.numa = numa /\ g.percore = m.cores \div numa, "NUMA domains", <<numa, m.cores \div numa>>)
        /\ Check(Len(g.levels) = Len(m.levels) + 1, "levels", m.levels)
        /\ \A i \in 1..Len(m.levels) :
             LET x == m.levels[i] y == g.levels[i]
             IN Check(i > Len(g.levels) \/ (/\ y.name = x.name /\ y.kB = x.kB /\ y.groups = x.groups
                      /\ y.cores = cores \div x.groups /\ y.threads = (cores \div x.groups) * m.threads
                      /\ y.next = IF i < Len(m.levels) THEN m.levels[i+1].name ELSE ""), "cache level", x)
        /\ LET y == g.levels[Len(g.levels)]
           IN Check(y.name = "MEM" /\ y.cores = m.cores /\ y.threads = m.cores * m.threads, "memory", m)
        /\ Check(E.same = TRUE, "recognized as itself", m)
        /\ Check(E.other = (E.twin = E.machine), "recognized as another", E.twin)
        /\ Check(g.kept = TRUE, "what is described is kept", m)
  /\ UNCHANGED <<hw, calls, file>>
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ (Machine \/ Run \/ Readout)
        /\ IF l' > Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
