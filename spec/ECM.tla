----------------------------------- MODULE ECM -----------------------------------
(* The Execution-Cache-Memory model over exact rationals. A configuration c:       *)
(*  cl, bpi     bytes per cache line, bytes the inner loop advances per iteration  *)
(*  clock       GHz, flops operations per iteration                                *)
(*  l1ol        loads from L1 overlap with transfers                               *)
(*  ports       <<[cls |-> "ol" | "nol" | "none", cy |-> rational]>> per block     *)
(*  thr, inc    block throughput (cy), bytes the block advances                    *)
(*  levels      from L2 to memory: [kind |-> "cache" | "mem", ol, duplex, loads,   *)
(*              stores (cache lines), tp (B/cy), bw (GB/s), pl, ps (cy)]           *)
(*  numa, socket  cores per NUMA domain and per socket                             *)
EXTENDS Integers, Sequences, TLC, Rational
B == INSTANCE BigNat

(* cache lines per executed block -> a cache line of work *)
Ratio(c) == R(c.cl, c.inc)
ItPerCl(c) == R(c.cl, c.bpi)
PortMax(c, cls) == MaxOf([i \in 1..Len(c.ports) |->
    IF c.ports[i].cls = cls THEN Mul(c.ports[i].cy, Ratio(c)) ELSE Zero])
Throughput(c) == Mul(c.thr, Ratio(c))
TRegL1(c) == PortMax(c, "nol")
TComp(c) == IF Lt(TRegL1(c), Throughput(c)) THEN Throughput(c) ELSE PortMax(c, "ol")

Lines(lv) == IF lv.duplex = "half" THEN Add(lv.loads, lv.stores) ELSE Max(lv.loads, lv.stores)
Cycles(c, lv) ==
  IF lv.kind = "mem" THEN Div(Mul(Mul(Lines(lv), Whole(c.cl)), c.clock), lv.bw)
  ELSE Div(Mul(Lines(lv), Whole(c.cl)), lv.tp)
PenaltyOf(lv) == IF lv.kind = "mem" THEN Add(Mul(lv.loads, lv.pl), Mul(lv.stores, lv.ps)) ELSE Zero
Penalty(c) == SumOf([i \in 1..Len(c.levels) |-> PenaltyOf(c.levels[i])])
AllCycles(c) == [i \in 1..Len(c.levels) |-> Cycles(c, c.levels[i])]

(* overlapping levels come first *)
Flags(c) == <<c.l1ol>> \o [i \in 1..Len(c.levels) |-> c.levels[i].ol]
Supported(c) == \A i, j \in 1..Len(Flags(c)) : i < j /\ Flags(c)[j] => Flags(c)[i]
OLParts(c) == <<TComp(c)>> \o (IF c.l1ol THEN <<TRegL1(c)>> ELSE <<>>)
              \o SelectSeq([i \in 1..Len(c.levels) |-> IF c.levels[i].ol THEN AllCycles(c)[i] ELSE <<-1, 1>>],
                           LAMBDA t : t[1] >= 0)
NOLParts(c) == (IF c.l1ol THEN <<>> ELSE <<TRegL1(c)>>)
               \o SelectSeq([i \in 1..Len(c.levels) |-> IF c.levels[i].ol THEN <<-1, 1>> ELSE AllCycles(c)[i]],
                            LAMBDA t : t[1] >= 0)
               \o (IF Penalty(c) = Zero THEN <<>> ELSE <<Penalty(c)>>)
TECM(c) == Max(MaxOf(OLParts(c)), SumOf(NOLParts(c)))
TMEM(c) == AllCycles(c)[Len(c.levels)]

(* ---- several cores: utilisation of the memory interface, as big rationals ---- *)
One == <<B!OfInt(1), B!OfInt(1)>>
Q(n) == <<B!OfInt(n), B!OfInt(1)>>
Busy(c, n) == B!QMul(Q(n), B!QOf(TMEM(c)))
RECURSIVE Utils(_, _)
(* <<u(1), ..., u(n)>> *)
Utils(c, n) ==
  IF n = 0 THEN <<>>
  ELSE LET us == Utils(c, n - 1)
           wait == IF n = 1 THEN Q(0)
                   ELSE B!QMul(us[n - 1], B!QMul(<<B!OfInt(n - 1), B!OfInt(2)>>, B!QOf(TMEM(c))))
           room == B!QAdd(B!QOf(TECM(c)), wait)
       IN Append(us, IF B!QLt(room, Busy(c, n)) THEN One ELSE B!QDiv(Busy(c, n), room))
InMemory(c) == TMEM(c) # Zero
Saturated(c, us, n) == LET wait == IF n = 1 THEN Q(0)
                                   ELSE B!QMul(us[n - 1], B!QMul(<<B!OfInt(n - 1), B!OfInt(2)>>, B!QOf(TMEM(c))))
                       IN B!QLt(B!QAdd(B!QOf(TECM(c)), wait), Busy(c, n))
SatCores(c) == IF ~InMemory(c) THEN 0
               ELSE LET us == Utils(c, c.numa) S == {n \in 1..c.numa : Saturated(c, us, n)}
                    IN IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : n <= m
(* cycles per cache line of work with n cores, for all n up to the socket *)
Scaling(c) ==
  IF ~InMemory(c) THEN [n \in 1..c.socket |-> B!QDiv(B!QOf(TECM(c)), Q(n))]
  ELSE LET us == Utils(c, c.numa)
       IN [n \in 1..c.socket |->
             IF n <= c.numa THEN B!QDiv(B!QOf(TMEM(c)), us[n])
             ELSE B!QDiv(B!QMul(B!QDiv(B!QOf(TMEM(c)), us[c.numa]), Q(c.numa)), Q(n))]

(* ---- units, from cycles per cache line (clock in GHz) ---- *)
ItPerNs(c, cy) == Div(Mul(c.clock, ItPerCl(c)), cy)
FlopPerNs(c, cy) == Mul(ItPerNs(c, cy), Whole(c.flops))
CyPerIt(c, cy) == Div(cy, ItPerCl(c))
=============================================================================
