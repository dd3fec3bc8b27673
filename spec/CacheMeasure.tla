---------------------------- MODULE CacheMeasure ----------------------------
(*************************************************************************)
(* Measuring the traffic of a kernel in its steady state with a cache    *)
(* simulator. The simulator is fed with the accesses of consecutive      *)
(* iterations, beginning with the first one, and with the first one      *)
(* again after the last one (a sweep). Once warm, its counters are reset *)
(* and one more section of iterations is fed, from one boundary between  *)
(* cache lines to another, within a sweep. The counters divided by the   *)
(* number of lines of that section are what is reported.                 *)
(*************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES total,        \* number of iterations of the kernel
          pos,          \* iterations of the current sweep which have been fed
          swept,        \* a sweep was completed
          full,         \* caches are known to hold no invalid entries
          feeds,        \* portions fed for warming up
          phase,        \* "warm", "measure", "done"
          first,        \* first iteration of the measured section
          last          \* first iteration behind it
mvars == <<total, pos, swept, full, feeds, phase, first, last>>

Patience == 100         \* portions after which an incomplete warm-up may be accepted

Start == IF pos = total THEN 0 ELSE pos
FeedOK(n) == /\ phase \in {"warm", "measure"} /\ n >= 1
             /\ Start + n <= total
             /\ phase = "measure" => Start = pos
Feed(n) == /\ FeedOK(n)
           /\ pos' = Start + n
           /\ swept' = (swept \/ pos' = total)
           /\ feeds' = (IF phase = "warm" THEN feeds + 1 ELSE feeds)
           /\ UNCHANGED <<total, full, phase, first, last>>
Count(n) == /\ full' = (n = 0)
            /\ UNCHANGED <<total, pos, swept, feeds, phase, first, last>>
Warm(patience) == full \/ swept \/ feeds >= patience
Reset(patience) == /\ phase = "warm" /\ Warm(patience)
                   /\ phase' = "measure" /\ first' = Start /\ pos' = Start
                   /\ UNCHANGED <<total, swept, full, feeds, last>>
Stop == /\ phase = "measure" /\ pos > first
        /\ phase' = "done" /\ last' = pos
        /\ UNCHANGED <<total, pos, swept, full, feeds, first>>
Begin(n) == /\ total = n /\ pos = 0 /\ swept = FALSE /\ full = FALSE /\ feeds = 0
            /\ phase = "warm" /\ first = 0 /\ last = 0

(* A whole line of work can always be found in a kernel of more than two lines of iterations. *)
MustMeasure(elements) == total > 2 * elements + 1

(* result of a counter: count per line, where a section of bytes was measured *)
(* (as reduced fraction p/q) *)
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
PerLine(count, bytes, cl, p, q) ==
  LET g == GCD(bytes, cl)
      h == GCD(count * (cl \div g), bytes \div g)
  IN p = (count * (cl \div g)) \div h /\ q = (bytes \div g) \div h
=============================================================================
