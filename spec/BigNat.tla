--------------------------------- MODULE BigNat ---------------------------------
(* Naturals of any size: little-endian sequences of limbs in base 10^4, without   *)
(* leading zero limbs (zero is <<>>).                                             *)
EXTENDS Integers, Sequences
Base == 10000
RECURSIVE OfInt(_), Trim(_), AddC(_, _, _), SubB(_, _, _), MulSmall(_, _, _), MulAll(_, _), CmpAt(_, _, _)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfInt(n \div Base)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
AddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c
       IN <<x % Base>> \o AddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div Base)
BAdd(a, b) == AddC(a, b, 0)
(* a >= b *)
SubB(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET x == a[1] - (IF b = <<>> THEN 0 ELSE b[1]) - c
       IN <<(x + Base) % Base>> \o SubB(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF x < 0 THEN 1 ELSE 0)
BSub(a, b) == Trim(SubB(a, b, 0))
MulSmall(a, k, c) == IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET x == a[1] * k + c IN <<x % Base>> \o MulSmall(Tail(a), k, x \div Base)
MulAll(a, b) == IF b = <<>> THEN <<>>
                ELSE LET rest == MulAll(a, Tail(b))
                     IN BAdd(MulSmall(a, b[1], 0), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MulAll(a, b))
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
BLeq(a, b) == BCmp(a, b) <= 0
(* non-negative rationals over them *)
QOf(r) == <<OfInt(r[1]), OfInt(r[2])>>
QAdd(a, b) == <<BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2])>>
QMul(a, b) == <<BMul(a[1], b[1]), BMul(a[2], b[2])>>
QDiv(a, b) == <<BMul(a[1], b[2]), BMul(a[2], b[1])>>
QLeq(a, b) == BLeq(BMul(a[1], b[2]), BMul(b[1], a[2]))
QLt(a, b) == ~QLeq(b, a)
=============================================================================
