-------------------------------- MODULE Roofline --------------------------------
(* The Roofline model over exact rationals. A configuration c:                     *)
(*  cl, size, bpi  bytes per cache line, per element, per inner loop iteration     *)
(*  step           elements the innermost loop advances per iteration              *)
(*  clock (GHz), cores, flops per iteration                                        *)
(*  asm            0: CPU limit is the peak (flops per cycle), 1: in-core model    *)
(*  peaksp, peakdp flops per cycle and core; thr, inc as in ECM                    *)
(*  acc            accesses of an iteration: [arr, off, w |-> 0 | 1]               *)
(*  bw1            GB/s of the first level                                         *)
(*  levels         from L1-L2 to memory: loads, stores (cache lines), bw (GB/s)    *)
(* Performance is in iterations per nanosecond.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rational

ItPerCl(c) == R(c.cl, c.bpi)
(* ---- traffic between registers and L1 of whole iterations making up a cache line ---- *)
Its(c) == IF c.cl \div c.bpi = 0 THEN 1 ELSE c.cl \div c.bpi
Touched(c, w) == {<<c.acc[j].arr, c.acc[j].off + c.step * t>> : t \in 0..(Its(c) - 1),
                                                               j \in {j \in DOMAIN c.acc : c.acc[j].w = w}}
L1Bytes(c) == c.size * (Cardinality(Touched(c, 0)) + Cardinality(Touched(c, 1)))
Bytes(c, lv) == Mul(Add(lv.loads, lv.stores), Whole(c.cl))
(* iterations per byte *)
Intensity(c) == <<Div(Whole(Its(c)), Whole(L1Bytes(c)))>>
                \o [i \in 1..Len(c.levels) |-> Div(ItPerCl(c), Bytes(c, c.levels[i]))]
Widths(c) == <<c.bw1>> \o [i \in 1..Len(c.levels) |-> c.levels[i].bw]
Limits(c) == [i \in 1..(Len(c.levels) + 1) |-> Mul(Intensity(c)[i], Widths(c)[i])]
(* the in-core model replaces the first level *)
Considered(c) == IF c.asm = 1 THEN 2..(Len(c.levels) + 1) ELSE 1..(Len(c.levels) + 1)
Peak(c) == IF c.size = 8 THEN c.peakdp ELSE c.peaksp
CPU(c) == IF c.asm = 1 THEN Mul(Whole(c.cores), Mul(Div(c.clock, c.thr), R(c.inc, c.bpi)))
          ELSE IF c.flops = 0 THEN Inf
          ELSE Div(Mul(Mul(c.clock, Whole(c.cores)), Whole(Peak(c))), Whole(c.flops))
MinOver(S, f) == LET m == CHOOSE i \in S : \A j \in S : Leq(f[i], f[j]) IN f[m]
(* in-core figures per cache line of the first data type *)
Ratio(c) == R(c.cl, c.inc)
PortCycles(c) == [i \in 1..Len(c.ports) |-> Mul(c.ports[i].cy, Ratio(c))]
LineThroughput(c) == Mul(c.thr, Ratio(c))
Memory(c) == MinOver(Considered(c), Limits(c))
Performance(c) == Min(CPU(c), Memory(c))
(* what may be blamed *)
Bottlenecks(c) == (IF Leq(CPU(c), Memory(c)) THEN {"CPU"} ELSE {})
Guilty(c) == {i \in Considered(c) : Limits(c)[i] = Performance(c)}

(* ---- units ---- *)
InCyPerIt(c, p) == Div(c.clock, p)
InCyPerCl(c, p) == Mul(InCyPerIt(c, p), ItPerCl(c))
InFlops(c, p) == Mul(p, Whole(c.flops))
=============================================================================
