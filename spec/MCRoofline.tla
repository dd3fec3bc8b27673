------------------------------- MODULE MCRoofline -------------------------------
EXTENDS Roofline
CONSTANTS MaxStep
VARIABLES c, n
vars == <<c, n>>
Acc(a, o, w) == [arr |-> a, off |-> o, w |-> w]
Bodies == {<<Acc("b", 0, 0), Acc("a", 0, 1)>>, <<Acc("b", -1, 0), Acc("b", 1, 0), Acc("a", 0, 1)>>,
           <<Acc("b", 0, 0), Acc("c", 3, 0), Acc("a", 0, 1)>>, <<>>}
Init ==
  /\ n = 0
  /\ \E b \in Bodies, size \in {4, 8}, step \in {1, 2, 16}, f \in {0, 1, 3}, asm \in {0, 1}, k \in {1, 3} :
       c = [cl |-> 64, size |-> size, step |-> step, bpi |-> size * step, clock |-> Whole(2), cores |-> k,
            flops |-> f, asm |-> asm, peaksp |-> 16, peakdp |-> 8, thr |-> Whole(3), inc |-> 32, acc |-> b,
            bw1 |-> Whole(50),
            levels |-> <<[loads |-> Whole(1), stores |-> Zero, bw |-> Whole(30)],
                         [loads |-> Whole(1), stores |-> Zero, bw |-> Whole(10)]>>]
Next ==
  /\ n < MaxStep /\ n' = n + 1
  /\ \/ \E i \in 1..2 : c' = [c EXCEPT !.levels[i].loads = Add(@, R(1, 2))]
     \/ \E i \in 1..2 : c' = [c EXCEPT !.levels[i].stores = Add(@, Whole(1))]
     \/ c' = [c EXCEPT !.levels[2].loads = Zero, !.levels[2].stores = Zero]
     \/ \E i \in 1..2 : c' = [c EXCEPT !.levels[i].bw = Add(@, Whole(7))]
     \/ c' = [c EXCEPT !.bw1 = Add(@, Whole(100))]
     \/ c' = [c EXCEPT !.thr = Add(@, Whole(2))]
     \/ c' = [c EXCEPT !.acc = Append(@, Acc("d", 0, 0))]
     \/ c' = [c EXCEPT !.cores = @ + 1]
Spec == Init /\ [][Next]_vars
View == c
Smallest == /\ Leq(Performance(c), CPU(c))
            /\ \A i \in Considered(c) : Leq(Performance(c), Limits(c)[i])
            /\ Bottlenecks(c) # {} \/ Guilty(c) # {}
            /\ IsInf(Performance(c)) => c.flops = 0 /\ c.asm = 0 /\ \A i \in Considered(c) : IsInf(Intensity(c)[i])
Same(f) == c'[f] = c[f]
Monotone == [][/\ (Same("levels") /\ Same("bw1") /\ Same("thr") /\ Same("acc") => Leq(Performance(c), Performance(c')))
               /\ (c'.thr # c.thr \/ c'.acc # c.acc => Leq(Performance(c'), Performance(c)))
               /\ (c'.bw1 # c.bw1 \/ c'.cores # c.cores => Leq(Performance(c), Performance(c')))
               /\ \A i \in 1..2 : LET a == c.levels[i] b == c'.levels[i] IN
                    /\ (b.bw # a.bw => Leq(Performance(c), Performance(c')))
                    /\ (Lt(a.loads, b.loads) \/ Lt(a.stores, b.stores) => Leq(Performance(c'), Performance(c)))]_vars
(* the same limits on one core never give more than cores times the bandwidth *)
UnitsAgree == LET p == Performance(c) IN
   IsInf(p) \/ (/\ Mul(InCyPerIt(c, p), p) = c.clock
                /\ InCyPerCl(c, p) = Mul(InCyPerIt(c, p), ItPerCl(c))
                /\ (c.flops > 0 /\ c.asm = 0 => Leq(InFlops(c, p), Mul(Mul(c.clock, Whole(c.cores)), Whole(Peak(c))))))
=============================================================================
