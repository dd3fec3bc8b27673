---------------------------- MODULE MCBenchRun ----------------------------
(* Interpolation to a run of Goal ticks, for all costs of a repetition, which *)
(* a clock of limited resolution and a run of varying length hide             *)
EXTENDS BenchRun, TLC
CONSTANTS Enough, Goal, First, MaxCost, Fine, Jitter, MaxCounted
VARIABLES cost          \* of Fine repetitions, in ticks
vars == <<bvars, cost>>
Init == Begin /\ cost \in 1..MaxCost
Want == IF reps = 0 THEN First ELSE IF took = 0 THEN reps * 10 ELSE (Goal * reps) \div took
Measured(n, j) == LET t == (n * cost) \div Fine IN IF t - j < 0 THEN 0 ELSE t - j
Next == \/ \E j \in 0..Jitter : Timed(Want, Measured(Want, j), Enough) /\ UNCHANGED cost
        \/ counted < MaxCounted /\ Counted(reps) /\ UNCHANGED cost
        \/ Finish /\ UNCHANGED cost
        \/ Fail /\ UNCHANGED cost
Spec == Init /\ [][Next]_vars /\ WF_vars(\E j \in 0..Jitter : Timed(Want, Measured(Want, j), Enough) /\ UNCHANGED cost)
(* there is always a next run, it has more repetitions, and it does not take forever *)
Going == phase = "timing" => TimedOK(Want) /\ Want > 0
Long == phase \in {"counting", "done"} => took >= Enough
NotEndless == took <= 2 * Goal + MaxCost * First
Ends == <>(phase # "timing")
=============================================================================
