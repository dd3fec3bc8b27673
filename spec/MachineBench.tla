---------------------------- MODULE MachineBench ----------------------------
(***************************************************************************)
(* Measuring a machine into its description file. One process after the   *)
(* other loads the file, drops what was measured for other sizes than the  *)
(* machine has now, measures what is missing -- series by series -- and    *)
(* saves the description after every point. A process may be interrupted   *)
(* or killed at any moment, also while it is writing the file; in between  *)
(* the description of the hierarchy may be corrected.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Series,      \* number of series (kernel, level, threads per core), measured in order
          Points,      \* points per series
          Versions,    \* versions of the hierarchy
          Stops,       \* how many processes end early at most
          Edits,       \* how many corrections at most
          Atomic,      \* files are replaced at once
          Invalidate,  \* results for other sizes are dropped
          Emit
ASSUME /\ Series \in Nat /\ Points \in Nat /\ Atomic \in BOOLEAN /\ Invalidate \in BOOLEAN

Nothing == [sizes |-> 0, got |-> [s \in 1..Series |-> <<>>]]

VARIABLES disk,      \* the file: sizes it is for, and for every point the sizes it was measured with
          torn,      \* only a part of the file is there
          hw,        \* sizes of the hierarchy as described now
          pc, mem,   \* the process, and its description
          stops, edits, hist, n
vars == <<disk, torn, hw, pc, mem, stops, edits, hist, n>>

Init == /\ disk = Nothing /\ torn = FALSE /\ hw = 1 /\ pc = "off" /\ mem = Nothing
        /\ stops = 0 /\ edits = 0 /\ hist = <<>> /\ n = 0

Full(d, s) == Len(d.got[s]) = Points
Complete(d) == \A s \in 1..Series : Full(d, s)
Current == CHOOSE s \in 1..Series : ~Full(mem, s) /\ \A t \in 1..(s - 1) : Full(mem, t)

(* a series which was not finished may be measured again *)
Kept(d) == {[d EXCEPT !.got = [s \in 1..Series |-> IF Full(d, s) \/ s \in K THEN d.got[s] ELSE <<>>]]
            : K \in SUBSET (1..Series)}
Start == /\ pc = "off" /\ ~torn
         /\ pc' = "run" /\ n' = 0
         /\ \E d \in Kept(disk) :
              mem' = IF d.sizes = 0 \/ (Invalidate /\ d.sizes # hw)
                     THEN [Nothing EXCEPT !.sizes = hw] ELSE d
         /\ UNCHANGED <<disk, torn, hw, stops, edits, hist>>
Measure == /\ pc = "run" /\ ~Complete(mem)
           /\ mem' = [mem EXCEPT !.got[Current] = Append(@, mem.sizes)]
           /\ pc' = "dump" /\ n' = n + 1
           /\ UNCHANGED <<disk, torn, hw, stops, edits, hist>>
Open == /\ pc = "dump" /\ ~Atomic /\ ~torn /\ torn' = TRUE
        /\ UNCHANGED <<disk, hw, pc, mem, stops, edits, hist, n>>
Written == /\ pc \in {"dump", "last"} /\ (Atomic \/ torn \/ pc = "last")
           /\ disk' = mem /\ torn' = FALSE
           /\ pc' = IF pc = "dump" THEN "run" ELSE "off"
           /\ UNCHANGED <<hw, mem, stops, edits, hist, n>>
Finish == /\ pc = "run" /\ Complete(mem) /\ disk' = mem
          /\ pc' = "done" /\ hist' = Append(hist, [end |-> "finished", at |-> n])
          /\ UNCHANGED <<torn, hw, mem, stops, edits, n>>
(* the user interrupts: what was measured is saved *)
Interrupt == /\ pc = "run" /\ stops < Stops /\ ~Complete(mem) /\ stops' = stops + 1 /\ pc' = "last"
             /\ hist' = Append(hist, [end |-> "interrupted", at |-> n])
             /\ UNCHANGED <<disk, torn, hw, mem, edits, n>>
(* the process is killed, or cannot write *)
Kill == /\ pc \in {"run", "dump"} /\ stops < Stops /\ stops' = stops + 1 /\ pc' = "off"
        /\ ~Complete(mem) \/ pc = "dump"
        /\ hist' = Append(hist, [end |-> IF pc = "run" THEN "killed" ELSE "unwritten", at |-> n])
        /\ UNCHANGED <<disk, torn, hw, mem, edits, n>>
Edit == /\ pc \in {"off", "done"} /\ edits < Edits /\ hist # <<>> /\ edits' = edits + 1 /\ pc' = "off"
        /\ \E v \in Versions \ {hw} : hw' = v /\ hist' = Append(hist, [end |-> "edited", at |-> v])
        /\ UNCHANGED <<disk, torn, mem, stops, n>>
Shown == IF Emit /\ pc' = "done" THEN PrintT(ToJson([hist |-> hist'])) ELSE TRUE
Next == (Start \/ Measure \/ Open \/ Written \/ Finish \/ Interrupt \/ Kill \/ Edit) /\ Shown
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Measure) /\ WF_vars(Open)
        /\ WF_vars(Written) /\ WF_vars(Finish)

(* ---- what is relied on ---- *)
(* the file can always be loaded when no process is writing it *)
Loads == pc \in {"off", "run", "done"} => ~torn
(* every result belongs to the sizes which the file states *)
Truthful == \A s \in 1..Series : \A i \in 1..Len(disk.got[s]) : disk.got[s][i] = disk.sizes
(* after a complete run the file describes the machine as it is *)
Right == pc = "done" => Complete(disk) /\ disk.sizes = hw
(* finished series are kept, while the hierarchy stays *)
Keeps == [][\A s \in 1..Series : Full(disk, s) /\ disk.sizes = hw => disk'.got[s] = disk.got[s]]_disk
(* it is complete at last *)
Ends == <>(pc = "done")
View == <<disk, torn, hw, pc, mem, stops, edits>>
=============================================================================
