------------------------------ MODULE Quantity ------------------------------
(* Quantities: a decimal value, a metric prefix and a unit. Only the base value *)
(* (value times factor of the prefix) and the unit are observable meaning.      *)
(* Decimals are <<m, e>> = m * 10^e with m integer (TLC integers are 32 bit, so *)
(* exponents are never multiplied out unless they are close to each other).     *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS Mantissas, Exps, Units, MaxOps, Emit

PrefixExp == [none |-> 0, k |-> 3, M |-> 6, G |-> 9, T |-> 12, P |-> 15,
              E |-> 18, Z |-> 21, Y |-> 24]
Prefixes == DOMAIN PrefixExp

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

(* ---- decimals ------------------------------------------------------------ *)
RECURSIVE Norm(_)
Norm(d) == IF d[1] = 0 THEN <<0, 0>>
           ELSE IF d[1] % 10 = 0 THEN Norm(<<d[1] \div 10, d[2] + 1>>) ELSE d
Align(d, e) == d[1] * Pow10(d[2] - e)          \* mantissa of d at exponent e <= d[2]
MinE(a, b) == IF a[2] < b[2] THEN a[2] ELSE b[2]
DAdd(a, b) == IF a[1] = 0 THEN Norm(b) ELSE IF b[1] = 0 THEN Norm(a)
              ELSE LET e == MinE(a, b) IN Norm(<<Align(a, e) + Align(b, e), e>>)
DNeg(a) == <<-a[1], a[2]>>
DSub(a, b) == DAdd(a, DNeg(b))
DMul(a, b) == Norm(<<a[1] * b[1], a[2] + b[2]>>)
(* exact only when b's mantissa divides 1000 after normalisation *)
DDiv(a, b) == LET nb == Norm(b)
              IN Norm(<<a[1] * (1000 \div Abs(nb[1])) * (IF nb[1] < 0 THEN -1 ELSE 1),
                        a[2] - nb[2] - 3>>)
Divides1000(b) == LET nb == Norm(b) IN nb[1] # 0 /\ 1000 % Abs(nb[1]) = 0
DAbs(a) == <<Abs(a[1]), a[2]>>
DFloorDiv(a, b) == LET e == MinE(a, b) IN Norm(<<Align(a, e) \div Align(b, e), 0>>)
DMod(a, b) == LET e == MinE(a, b) IN Norm(<<Align(a, e) % Align(b, e), e>>)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
Mag(d) == Digits(Abs(d[1])) + d[2]
PosLess(a, b) == IF Mag(a) # Mag(b) THEN Mag(a) < Mag(b)
                 ELSE LET e == MinE(a, b) IN Align(a, e) < Align(b, e)
DLess(a, b) == IF a[1] = 0 \/ b[1] = 0 \/ (a[1] < 0) # (b[1] < 0) THEN a[1] < b[1]
               ELSE IF a[1] > 0 THEN PosLess(a, b) ELSE PosLess(DAbs(b), DAbs(a))
DEq(a, b) == Norm(a) = Norm(b)

(* ---- quantities: [v: decimal, p: prefix, u: unit] -------------------------- *)
Base(q) == Norm(<<q.v[1], q.v[2] + PrefixExp[q.p]>>)
WithPrefix(q, p) == [v |-> Norm(<<q.v[1], q.v[2] + PrefixExp[q.p] - PrefixExp[p]>>), p |-> p, u |-> q.u]
Plain(d, u) == [v |-> d, p |-> "none", u |-> u]
Err == <<>>

(* the meaning <<base value, unit>> of the result of an operation, or Err *)
Meaning(op, a, b) ==
  CASE op = "add" -> IF a.u = b.u THEN <<DAdd(Base(a), Base(b)), a.u>> ELSE Err
    [] op = "sub" -> IF a.u = b.u THEN <<DSub(Base(a), Base(b)), a.u>> ELSE Err
    [] op = "mod" -> IF a.u = b.u THEN <<DMod(Base(a), Base(b)), a.u>> ELSE Err
    [] op = "mul" -> <<DMul(Base(a), Base(b)), a.u \o b.u>>
    [] op = "div" -> <<DDiv(Base(a), Base(b)), a.u \o "/" \o b.u>>
    [] op = "floordiv" -> <<DFloorDiv(Base(a), Base(b)), a.u \o "/" \o b.u>>
    [] op \in {"smul"} -> <<DMul(Base(a), Base(b)), a.u>>      \* plain number operand
    [] op \in {"sdiv"} -> <<DDiv(Base(a), Base(b)), a.u>>
    [] op \in {"sadd"} -> <<DAdd(Base(a), Base(b)), a.u>>
    [] op \in {"ssub"} -> <<DSub(Base(a), Base(b)), a.u>>
    [] op \in {"reduced", "with_prefix", "same"} -> <<Base(a), a.u>>
    [] op = "abs" -> <<DAbs(Base(a)), a.u>>
Truth(op, a, b) ==
  CASE op = "lt" -> DLess(Base(a), Base(b))
    [] op = "gt" -> DLess(Base(b), Base(a))
    [] op = "le" -> ~DLess(Base(b), Base(a))
    [] op = "ge" -> ~DLess(Base(a), Base(b))
    [] op = "eq" -> DEq(Base(a), Base(b))
    [] op = "ne" -> ~DEq(Base(a), Base(b))

(* a printed form keeps the unit and the value within 1 % or half of the last digit *)
PrintedOk(a, printed) ==
  LET b == Base(a)
      far == printed[1] # 0 /\ b[1] # 0 /\ Abs(Mag(b) - Mag(printed)) > 1
      d == DAbs(DSub(b, printed))
  IN /\ ~far
     /\ \/ d[1] = 0
        \/ ~DLess(<<5, -3>>, d)
        \/ ~DLess(DMul(DAbs(b), <<1, -2>>), d)

-----------------------------------------------------------------------------
(* Model: a quantity rewritten by a chain of operations; `meaning` is a ghost   *)
(* computed independently in plain integers.                                    *)
VARIABLES q, meaning, ops
vars == <<q, meaning, ops>>
Qs == [v : {<<m, 0>> : m \in Mantissas}, p : Exps, u : Units]

IntBase(x) == x.v[1] * Pow10(x.v[2] + PrefixExp[x.p])
Init == /\ q \in Qs
        /\ meaning = IntBase(q) /\ ops = 0
Rescale(p) == /\ ops < MaxOps /\ ops' = ops + 1
              /\ q' = WithPrefix(q, p) /\ UNCHANGED meaning
AddQ(b) == /\ ops < MaxOps /\ ops' = ops + 1 /\ b.u = q.u
           /\ LET r == Meaning("add", q, b) IN q' = Plain(r[1], r[2])
           /\ meaning' = meaning + IntBase(b)
SubQ(b) == /\ ops < MaxOps /\ ops' = ops + 1 /\ b.u = q.u
           /\ LET r == Meaning("sub", q, b) IN q' = Plain(r[1], r[2])
           /\ meaning' = meaning - IntBase(b)
MulN(n) == /\ ops < MaxOps /\ ops' = ops + 1 /\ Abs(meaning) < 10000000
           /\ LET r == Meaning("smul", q, Plain(<<n, 0>>, "")) IN q' = Plain(r[1], r[2])
           /\ meaning' = meaning * n
EmitAll == IF Emit /\ ops = 0
           THEN \A b \in Qs : \A op \in {"add", "sub", "mul", "lt", "le", "gt", "ge", "eq", "ne"} :
                  PrintT(ToJson([op |-> op, a |-> q, b |-> b,
                     r |-> IF op \in {"lt", "le", "gt", "ge", "eq", "ne"}
                           THEN <<Truth(op, q, b)>> ELSE Meaning(op, q, b)]))
           ELSE TRUE
Next == \/ \E p \in Exps : Rescale(p)
        \/ \E b \in Qs : AddQ(b) \/ SubQ(b)
        \/ \E n \in {2, 3, 10} : MulN(n)
Spec == Init /\ [][Next]_vars
ValueKept == DEq(Base(q), <<meaning, 0>>)
OrderTotal == \A b \in Qs : /\ Truth("lt", q, b) \/ Truth("gt", q, b) \/ Truth("eq", q, b)
                            /\ Truth("eq", q, WithPrefix(q, b.p))
                            /\ ~(Truth("lt", q, b) /\ Truth("gt", q, b))
AddCommutes == \A b \in Qs : Meaning("add", q, b) = Meaning("add", b, q)
MulCommutes == Abs(q.v[1]) > 9999 \/ \A b \in Qs : Meaning("mul", q, b) = Err \/ Meaning("mul", q, b)[1] = Meaning("mul", b, q)[1]
EmitInv == EmitAll
=============================================================================
