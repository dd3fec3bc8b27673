----------------------------- MODULE ConstStore -----------------------------
(* Constants of a kernel and the memoised substitution of constants into        *)
(* symbolic expressions. The kernel is                                          *)
(*    double a[M][N], b[M][N];                                                  *)
(*    for j in 1..M-2 step 1, for i in 1..N-2 step 2: a[j][i] = b[j-1][i+1]     *)
(* Abstract meaning: a query is answered from the current constants only.       *)
(* The memo table is modelled as implemented (filled by queries, flushed by     *)
(* Clear and, with FlushOnSet, by Set); AnswersCurrent is the property.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Values, MaxOps, FlushOnSet, Emit
Names == {"M", "N"}
Undef == -1
Queries == {"sizes", "loops", "total", "last", "indices", "offsets", "order"}

VARIABLES consts, memo, answer, hist
vars == <<consts, memo, answer, hist>>
HistView == <<consts, memo, answer, hist>>

Ceil(a, b) == (a + b - 1) \div b
Rows(c) == c["M"] - 2
Cols(c) == Ceil(c["N"] - 2, 2)
Needs(q) == CASE q \in {"sizes", "loops", "total", "last", "indices", "offsets"} -> Names
              [] q = "order" -> {}
Align(n) == ((n + 63) \div 64) * 64
(* numbers a query returns under the constants c *)
Eval(q, c) ==
  IF \E n \in Needs(q) : c[n] = Undef THEN <<"symbolic">>
  ELSE CASE q = "sizes" -> <<c["M"] * c["N"], c["M"] * c["N"] * 8>>
         [] q = "loops" -> <<1, c["M"] - 1, 1, 1, c["N"] - 1, 2>>
         [] q = "total" -> <<Rows(c) * Cols(c), Rows(c), Cols(c)>>
         [] q = "last" -> <<Rows(c) * Cols(c) - 1>>
         [] q = "indices" -> LET n == Rows(c) * Cols(c) - 1 IN
                <<1 + ((n \div Cols(c)) % Rows(c)), 1 + 2 * (n % Cols(c))>>
         [] q = "offsets" ->      \* iteration Cols (first of the second row): load b, store a
              IF Rows(c) < 2 THEN <<"none">>
              ELSE <<Align(c["M"] * c["N"] * 8) + 8 * ((2 - 1) * c["N"] + 1 + 1),
                     8 * (2 * c["N"] + 1)>>
         [] q = "order" -> [i \in 1..Cardinality({n \in Names : c[n] # Undef}) |->
                LET S == {n \in Names : c[n] # Undef} IN
                IF S = Names THEN <<"M", "N">>[i] ELSE CHOOSE n \in S : TRUE]

NoMemo == [q \in {} |-> <<>>]
Init == /\ consts = [n \in Names |-> Undef] /\ memo = NoMemo /\ hist = <<>> /\ answer = <<>>
Can == Len(hist) < MaxOps
MemoGet(q) == IF q \in DOMAIN memo THEN memo[q] ELSE Eval(q, consts)
Set(n, v) == /\ Can /\ consts' = [consts EXCEPT ![n] = v]
             /\ memo' = IF FlushOnSet THEN NoMemo ELSE memo
             /\ hist' = Append(hist, [op |-> "set", n |-> n, v |-> v, r |-> <<>>])
             /\ answer' = <<>>
Clear == /\ Can /\ consts' = [n \in Names |-> Undef] /\ memo' = NoMemo
         /\ hist' = Append(hist, [op |-> "clear", n |-> "", v |-> 0, r |-> <<>>])
         /\ answer' = <<>>
Query(q) == /\ Can /\ LET r == MemoGet(q) IN
                 /\ memo' = [x \in {q} \cup DOMAIN memo |-> IF x = q THEN r ELSE memo[x]]
                 /\ answer' = <<q, r>>
                 /\ hist' = Append(hist, [op |-> "query", n |-> q, v |-> 0, r |-> r])
            /\ UNCHANGED consts
            /\ IF Emit /\ Len(hist') = MaxOps THEN PrintT(ToJson([h |-> hist'])) ELSE TRUE
Next == \/ \E n \in Names, v \in Values : Set(n, v)
        \/ Clear
        \/ \E q \in Queries : Query(q)
Spec == Init /\ [][Next]_vars
AnswersCurrent == answer # <<>> => answer[2] = Eval(answer[1], consts)
=============================================================================
