---------------------------------- MODULE MCECM ----------------------------------
(* Small configurations whose contributions grow step by step.                    *)
EXTENDS ECM
CONSTANTS MaxStep
VARIABLES c, n
vars == <<c, n>>
Lv(k, ol, du) == [kind |-> k, ol |-> ol, duplex |-> du, loads |-> Whole(1), stores |-> Whole(0), tp |-> Whole(32),
                  bw |-> Whole(16), pl |-> Zero, ps |-> Zero]
Init ==
  /\ n = 0
  /\ \E o1, o2 \in BOOLEAN, d2, dm \in {"half", "full"}, numa \in {1, 3, 4} :
       c = [cl |-> 64, bpi |-> 8, clock |-> Whole(2), flops |-> 2, l1ol |-> o1,
            ports |-> <<[cls |-> "ol", cy |-> Whole(1)], [cls |-> "nol", cy |-> Whole(2)]>>,
            thr |-> Whole(2), inc |-> 32, numa |-> numa, socket |-> 6,
            levels |-> <<Lv("cache", o1 /\ o2, d2), Lv("mem", FALSE, dm)>>]
Grow(x) == Add(x, Whole(1))
Next ==
  /\ n < MaxStep /\ n' = n + 1
  /\ \/ \E i \in 1..2 : c' = [c EXCEPT !.levels[i].loads = Grow(@)]
     \/ \E i \in 1..2 : c' = [c EXCEPT !.levels[i].stores = Grow(@)]
     \/ c' = [c EXCEPT !.levels[2].pl = Add(@, Whole(7))]
     \/ c' = [c EXCEPT !.levels[2].ps = Grow(@)]
     \/ \E i \in 1..2 : c' = [c EXCEPT !.ports[i].cy = Grow(@), !.thr = Max(@, Grow(c.ports[i].cy))]
     \/ c' = [c EXCEPT !.levels[2].loads = Zero, !.levels[2].stores = Zero]
Spec == Init /\ [][Next]_vars
View == c
Ok == Supported(c)
Bounded == /\ \A i \in 1..2 : Leq(AllCycles(c)[i], TECM(c))
           /\ Leq(TRegL1(c), TECM(c)) /\ Leq(TComp(c), TECM(c)) /\ Leq(Penalty(c), TECM(c))
           /\ Leq(TECM(c), Add(Add(TComp(c), TRegL1(c)), Add(SumOf(AllCycles(c)), Penalty(c))))
Grows == [][(TMEM(c') # Zero \/ TMEM(c) = Zero) => Leq(TECM(c), TECM(c'))]_vars
(* scaling: starts at the single core time, never better than linear, never       *)
(* beyond the memory interface of the domain, never worse with more cores         *)
Scales ==
  LET s == Scaling(c) e == B!QOf(TECM(c)) m == B!QOf(TMEM(c)) IN
  /\ B!QLeq(s[1], e) /\ B!QLeq(e, s[1])
  /\ \A k \in 1..c.socket : B!QLeq(B!QDiv(e, Q(k)), s[k])
  /\ InMemory(c) => \A k \in 1..c.numa : B!QLeq(m, s[k])
  /\ \A k \in 2..c.socket : B!QLeq(s[k], s[k - 1])
  /\ SatCores(c) # 0 => \A k \in SatCores(c)..c.numa : B!QLeq(s[k], m)
UnitsAgree == LET cy == TECM(c) IN
   /\ Mul(ItPerNs(c, cy), CyPerIt(c, cy)) = c.clock
   /\ FlopPerNs(c, cy) = Mul(Whole(c.flops), ItPerNs(c, cy))
=============================================================================
