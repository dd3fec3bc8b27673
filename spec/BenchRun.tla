------------------------------ MODULE BenchRun ------------------------------
(***************************************************************************)
(* Measuring how long a kernel takes. One repetition of it may be too      *)
(* short for any clock: repetitions are added until a run took long enough *)
(* to be believed. Counters are then measured in further runs of the very  *)
(* same length, and every figure that is reported is that of one           *)
(* repetition (or iteration, or cache line of work) of the last timed run. *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES phase,      \* "timing", "counting", "done", "failed"
          reps,       \* repetitions of the last timed run (0: there was none)
          took,       \* ticks it took
          counted     \* runs with counters
bvars == <<phase, reps, took, counted>>

Begin == phase = "timing" /\ reps = 0 /\ took = 0 /\ counted = 0

(* a run of n repetitions which took t ticks, of which enough are needed *)
TimedOK(n) == phase = "timing" /\ n > reps
Timed(n, t, enough) ==
  /\ TimedOK(n)
  /\ reps' = n /\ took' = t /\ UNCHANGED counted
  /\ phase' = IF t >= enough THEN "counting" ELSE "timing"
CountedOK(n) == phase = "counting" /\ n = reps
Counted(n) == CountedOK(n) /\ counted' = counted + 1 /\ UNCHANGED <<phase, reps, took>>
FinishOK == phase = "counting"
Finish == FinishOK /\ phase' = "done" /\ UNCHANGED <<reps, took, counted>>
(* a run which fails yields nothing *)
Fail == phase \in {"timing", "counting"} /\ phase' = "failed" /\ UNCHANGED <<reps, took, counted>>
=============================================================================
