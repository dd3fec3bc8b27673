------------------------------ MODULE Assembly ------------------------------
(* Loop blocks of assembly: what they do to addresses, and how they are marked. *)
(*                                                                             *)
(* A block is a sequence of instructions that is executed again and again:      *)
(*   set  d := a + sg * (b * 2^sh) + imm   (a, b may be missing: "")            *)
(*   mul  d := a * imm                                                          *)
(*   odd  d := something else altogether                                        *)
(*   ld, st, rw   access memory at a + b * 2^sh + imm; a load may go to d       *)
(*   nop                                                                        *)
(* wb is "pre" or "post" if the base a is changed by wbi before or after access.*)
(*                                                                             *)
(* The pointer increment is the change of addresses between iterations. It is   *)
(* that of the stores which access another address in each iteration (of the    *)
(* loads, if there are no such stores): if these all go on by the same amount   *)
(* in each iteration, whatever the registers are initially, it is that amount,  *)
(* otherwise there is none.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Blocks, Emit

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32
Iterations == 4
(* no pattern in these *)
Noise(n, j) == ((n * n * 37 + j * 17 + 11) * (n + 3)) % 997
Reg(rs, r) == IF r = "" THEN 0 ELSE rs[r]
Regs(bk) == UNION {{bk[i].a, bk[i].b, bk[i].d} : i \in DOMAIN bk} \ {""}
(* initial values without relation to each other *)
Starts == <<11, 1009, 40013>>
Names == <<"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7">>
Start(s) == [r \in {Names[i] : i \in DOMAIN Names} |->
               LET i == CHOOSE i \in DOMAIN Names : Names[i] = r IN ((Starts[s] * (i * i + s)) % 5003) + (7 * i * s)]
Access(in) == in.op \in {"ld", "st", "rw"}
(* registers are M wide *)
M == 1000003
Address(rs, in) == (Reg(rs, in.a) + Reg(rs, in.b) * Pow2(in.sh) + in.imm + (IF in.wb = "pre" THEN in.wbi ELSE 0)) % M
Do(rs, in, n, j) ==
  LET based == IF in.wb # "" THEN [rs EXCEPT ![in.a] = (@ + in.wbi) % M] ELSE rs
      to(v) == IF in.d = "" THEN based ELSE [based EXCEPT ![in.d] = v % M]
  IN CASE in.op = "set" -> to(Reg(rs, in.a) + in.sg * (Reg(rs, in.b) * Pow2(in.sh)) + in.imm)
       [] in.op = "mul" -> to(Reg(rs, in.a) * in.imm)
       [] in.op \in {"odd", "ld", "rw"} -> to(Noise(n, j))
       [] OTHER -> based
(* addresses accessed in one iteration, in order; registers afterwards *)
RECURSIVE Once(_, _, _, _)
Once(bk, rs, n, j) ==
  IF j > Len(bk) THEN [regs |-> rs, at |-> <<>>]
  ELSE LET r == Once(bk, Do(rs, bk[j], n, j), n, j + 1)
       IN [regs |-> r.regs, at |-> <<Address(rs, bk[j])>> \o r.at]
RECURSIVE Go(_, _, _)
Go(bk, rs, n) ==
  IF n > Iterations THEN <<>>
  ELSE LET r == Once(bk, rs, n, 1) IN <<r.at>> \o Go(bk, r.regs, n + 1)
Runs(bk) == [s \in DOMAIN Starts |-> Go(bk, Start(s), 1)]
(* changes of the address of instruction i *)
Signed(x) == LET y == x % M IN IF 2 * y > M THEN y - M ELSE y
Deltas(runs, i) == {Signed(runs[s][n + 1][i] - runs[s][n][i]) : s \in DOMAIN runs, n \in 1..(Iterations - 1)}
Going(S, runs) == {i \in S : Deltas(runs, i) # {0}}
Moving(bk, runs) ==
  LET st == Going({i \in DOMAIN bk : bk[i].op \in {"st", "rw"}}, runs)
      ld == Going({i \in DOMAIN bk : bk[i].op \in {"ld", "rw"}}, runs)
  IN IF st # {} THEN st ELSE ld
(* the increments that may be reported: at most one *)
Increments(bk) ==
  LET runs == Runs(bk)
      m == Moving(bk, runs)
      d == UNION {Deltas(runs, i) : i \in m}
  IN IF Cardinality(d) = 1 THEN d ELSE {}

(* ---- marking ----                                                           *)
(* A listing is a sequence of lines [kind, name]: labels, jumps to a label,    *)
(* vector instructions, other instructions and lines without instruction. A    *)
(* label counts if there is an instruction before the next label. A loop goes  *)
(* from such a label to the first jump to any of them, if that jumps back.     *)
(* Markers go right before the label and right after the jump.                 *)
Instr(line) == line.kind \in {"jump", "vector", "instr"}
LineOf(listing, n) == CHOOSE i \in DOMAIN listing : listing[i].kind = "label" /\ listing[i].name = n
LabelLines(listing) ==
  LET n == Len(listing)
      Last(S) == CHOOSE x \in S : \A y \in S : y <= x
      at == {i \in 1..n : listing[i].kind = "label"}
      ins == {i \in 1..n : Instr(listing[i])}
      owns == {Last({x \in at : x < j}) : j \in {j \in ins : \E x \in at : x < j}}
  IN owns
(* loops: lines of the label and of the jump back *)
Loops(listing) ==
  LET ls == LabelLines(listing)
      names == {listing[i].name : i \in ls}
      jumps == {j \in DOMAIN listing : listing[j].kind = "jump" /\ listing[j].name \in names}
      first(i) == CHOOSE j \in jumps : j > i /\ \A k \in jumps : k > i => j <= k
      closed == {i \in ls : (\E j \in jumps : j > i) /\ listing[first(i)].name = listing[i].name}
  IN {<<i, first(i)>> : i \in closed}
Nth(S, n) == CHOOSE x \in S : Cardinality({y \in S : y[1] < x[1]}) = n
Vectors(listing, x) == Cardinality({j \in x[1]..x[2] : listing[j].kind = "vector"})
(* the loops that a choice may lead to: none if it has to be refused *)
Choice(listing, how, number, answers) ==
  LET s == Loops(listing)
  IN CASE how = "number" -> IF number \in 0..(Cardinality(s) - 1) THEN {Nth(s, number)} ELSE {}
       [] how = "name" ->        \* asked again until the label of a loop is given
            LET fits == {k \in DOMAIN answers : \E x \in s : listing[x[1]].name = answers[k]}
            IN IF fits = {} THEN {}
               ELSE {x \in s : listing[x[1]].name = answers[CHOOSE k \in fits : \A j \in fits : k <= j]}
       [] how = "auto" ->        \* most vector instructions
            LET v == [x \in s |-> Vectors(listing, x)]
            IN {x \in s : \A y \in s : v[y] <= v[x]}
(* the marked listing: lines of the listing, 0 for the start and -1 for the end marker *)
Marked(listing, x) ==
  [k \in 1..(Len(listing) + 2) |->
     CASE k < x[1] -> k
       [] k = x[1] -> 0
       [] k > x[1] /\ k <= x[2] + 1 -> k - 1
       [] k = x[2] + 2 -> -1
       [] OTHER -> k - 2]
(* ---- an execution, step by step, for comparison with Runs ---- *)
VARIABLES block, start, regs, it, pos, log
vars == <<block, start, regs, it, pos, log>>
Init == /\ block \in Blocks /\ start \in DOMAIN Starts /\ regs = Start(start)
        /\ it = 1 /\ pos = 1 /\ log = <<<<>>>>
Step == /\ it <= Iterations
        /\ log' = [log EXCEPT ![it] = Append(@, Address(regs, block[pos]))]
                    \o (IF pos = Len(block) /\ it < Iterations THEN <<<<>>>> ELSE <<>>)
        /\ regs' = Do(regs, block[pos], it, pos)
        /\ pos' = IF pos = Len(block) THEN 1 ELSE pos + 1
        /\ it' = IF pos = Len(block) THEN it + 1 ELSE it
        /\ UNCHANGED <<block, start>>
        /\ (Emit /\ start = 1 /\ it' > Iterations) => PrintT(ToJson([block |-> block, inc |-> Increments(block)]))
Spec == Init /\ [][Step]_vars
SameAsRuns == it > Iterations => log = Runs(block)[start]
(* an increment is the one change of every moving address *)
Sound == \A d \in Increments(block) : \A i \in Moving(block, Runs(block)) : Deltas(Runs(block), i) = {d}
=============================================================================
