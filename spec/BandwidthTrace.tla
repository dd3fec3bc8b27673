---------------------------- MODULE BandwidthTrace ----------------------------
(* Recorded requests. Events:                                                   *)
(*  machine: benchmark kernels, per level and thread count the measured cores    *)
(*           and results, cores per group of the levels and of the NUMA domain   *)
(*  ask:     level, streams rn and wn (same scale), threads, cores (0: not given) *)
(*           and the answer (err=1: none)                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
B == INSTANCE Bandwidth WITH MaxStream <- 0, MaxTarget <- 0, Emit <- FALSE, table <- {}, last <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m
E == Trace[l]
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)
Elems(s) == {s[i] : i \in DOMAIN s}
(* measurements of kernel name k at level/threads: sequence of results, <<>> if none *)
Rows == {r \in Elems(m.rows) : r.level = E.level /\ r.threads = E.threads}
Row == CHOOSE r \in Rows : TRUE
Of(k) == IF k.name \in DOMAIN Row.results THEN Row.results[k.name] ELSE <<>>
Use(k) == B!Usable(Row.cores, Of(k), E.cores, m.group[E.level + 1], m.domain)
Value(k) == IF E.cores # 0 THEN {Of(k)[i] : i \in Use(k)} ELSE {B!MaxOf({Of(k)[i] : i \in Use(k)})}
Near(got, v, f) == B!Abs(got * f[2] - v * f[1]) <= 2 * f[2]
Step ==
  IF E.ev = "machine" THEN TRUE
  ELSE LET ks == B!Closest(Elems(m.kernels), B!Target(E.rn, E.wn)) IN
    IF Rows = {} THEN Check(E.err = 1, "threads-without-measurement-answered", E.threads)
    ELSE IF \A k \in ks : Use(k) = {}
         THEN Check(E.err = 1, "configuration-without-measurement-answered", E.cores)
         ELSE IF E.err = 1
         THEN Check(\E k \in ks : Use(k) = {}, "measured-configuration-not-answered", ks)
         ELSE /\ Check(\E k \in ks : k.name = E.kernel, "benchmark-not-closest", ks)
              /\ \A k \in ks : k.name = E.kernel =>
                   IF Use(k) = {} THEN Bad("configuration-without-measurement-answered", E.cores)
                   ELSE Check(\E v \in Value(k) : Near(E.got, v, B!Factor(k, E.level)),
                              "bandwidth-of-other-configuration", <<Value(k), B!Factor(k, E.level)>>)
Next == /\ l <= Len(Trace) /\ Step
        /\ m' = IF E.ev = "machine" THEN E ELSE m
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ m = <<>> /\ [][Next]_<<l, m>>
=============================================================================
