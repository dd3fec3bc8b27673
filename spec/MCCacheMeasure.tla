--------------------------- MODULE MCCacheMeasure ---------------------------
(*************************************************************************)
(* How the predictor drives the simulator, with its bounds scaled down:  *)
(* warm-up in portions of equal size until the caches are full or a      *)
(* sweep is complete, completing the sweep if too little is left of it,  *)
(* stepping to the next boundary between lines, measuring up to Window   *)
(* iterations. It has to be a correct measurement (CacheMeasure), for    *)
(* all sizes, lines, offsets and whatever the caches answer.             *)
(*************************************************************************)
EXTENDS Integers, TLC
CONSTANTS MaxTotal, Lines, Portions, Window, Steps

VARIABLES total, pos, swept, full, feeds, phase, first, last,
          pc, w, inc, line, off, complete, step, outcome
M == INSTANCE CacheMeasure
vars == <<total, pos, swept, full, feeds, phase, first, last, pc, w, inc, line, off, complete, step, outcome>>
mv == <<total, pos, swept, full, feeds, phase, first, last>>
rest == <<inc, line, off>>

(* store addresses in elements: off + t, boundary at multiples of line *)
Down(t) == t - ((off + t) % line)
Up(t) == IF (off + t) % line = 0 THEN t ELSE t + line - ((off + t) % line)
Min2(a, b) == IF a < b THEN a ELSE b

Init == /\ \E n \in 1..MaxTotal : M!Begin(n)
        /\ pc = "fill" /\ w = 0 /\ complete = FALSE /\ step = 0 /\ outcome = "none"
        /\ inc \in Portions /\ line \in Lines /\ off \in 0..(line - 1)

Fill == /\ pc = "fill"
        /\ IF ~full /\ step < Steps /\ ~complete
           THEN LET next == IF w + inc >= total THEN total ELSE w + inc
                IN /\ M!Feed(next - w) /\ w' = next /\ complete' = (next = total)
                   /\ step' = step + 1 /\ pc' = "ask"
           ELSE /\ pc' = "rest" /\ UNCHANGED <<mv, w, complete, step>>
        /\ UNCHANGED <<rest, outcome>>
Ask == /\ pc = "ask" /\ pc' = "fill"
       /\ \E n \in {0, 1} : M!Count(n)
       /\ UNCHANGED <<rest, w, complete, step, outcome>>
Rest == /\ pc = "rest" /\ pc' = "align"
        /\ IF complete THEN w' = 0 /\ UNCHANGED <<complete, mv>>
           ELSE IF w > total - Window THEN complete' = TRUE /\ w' = 0 /\ M!Feed(total - w)
           ELSE UNCHANGED <<complete, w, mv>>
        /\ UNCHANGED <<rest, step, outcome>>
Align == /\ pc = "align"
         /\ LET a == Up(w)
            IN IF a > total THEN pc' = "end" /\ outcome' = "rejected" /\ UNCHANGED <<mv, w>>
               ELSE /\ pc' = "reset" /\ w' = a /\ UNCHANGED outcome
                    /\ IF a = w THEN UNCHANGED mv ELSE M!Feed(a - w)
         /\ UNCHANGED <<rest, complete, step>>
Reset == /\ pc = "reset" /\ pc' = "bench" /\ M!Reset(Steps)
         /\ UNCHANGED <<rest, w, complete, step, outcome>>
Bench == /\ pc = "bench"
         /\ LET e == Down(Min2(w + Window, total - 1))
            IN IF e <= w THEN pc' = "end" /\ outcome' = "rejected" /\ UNCHANGED <<mv, w>>
               ELSE pc' = "stop" /\ M!Feed(e - w) /\ UNCHANGED <<w, outcome>>
         /\ UNCHANGED <<rest, complete, step>>
StopIt == /\ pc = "stop" /\ pc' = "end" /\ outcome' = "measured" /\ M!Stop
          /\ UNCHANGED <<rest, w, complete, step>>
End == pc = "end" /\ UNCHANGED vars
Next == Fill \/ Ask \/ Rest \/ Align \/ Reset \/ Bench \/ StopIt \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

WholeLines == phase = "done" => /\ last > first
                                /\ (off + first) % line = 0 /\ (off + last) % line = 0
                                /\ (last - first) % line = 0
WarmFirst == phase # "warm" => full \/ swept \/ feeds >= Steps
Accepts == outcome = "rejected" => ~M!MustMeasure(line)
Ends == <>(pc = "end")
(* TLC's check for deadlocks: the driver never does what a measurement may not do *)
=============================================================================
