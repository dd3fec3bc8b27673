----------------------------- MODULE KernelLang -----------------------------
(*************************************************************************)
(* Meaning of the C subset kernels are written in: which programs belong *)
(* to it, which loops, arrays, accesses and operations they consist of,  *)
(* at which addresses their accesses go, and what executing them does to *)
(* memory.                                                               *)
(*                                                                       *)
(* A program is a record                                                 *)
(*   decls: sequence of [name, dims (expressions, <<>> for a scalar),    *)
(*          type]                                                        *)
(*   loops: from the outermost to the innermost, [i, s, e, d (start,     *)
(*          stop and step), cond, next, cvar, nvar (operators, and the   *)
(*          variables they act upon)]                                    *)
(*   body:  sequence of statements of the innermost loop                 *)
(*          [kind = "assign", op, lhs, rhs]                              *)
(*   after: sequence of kinds of statements behind the loop nest         *)
(* Expressions are trees, distinguished by k:                            *)
(*   "c" constant (v, form), "n" name (n), "b" binary operation (op,l,r),*)
(*   "u" unary operation (op, l), "a" access (n, ix), "f" literal        *)
(*   (v), anything else lies beyond the subset.                          *)
(*************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES prog,         \* program which is executed by the machine below
          consts,       \* values of its constants
          it,           \* iteration which is executed
          st,           \* statement which is executed next
          mem,          \* name -> contents
          log           \* addresses in order of access: <<kind, name, element>>

vars == <<prog, consts, it, st, mem, log>>

SeqToSet(s) == {s[x] : x \in 1..Len(s)}

(*************************** index expressions ***************************)
RECURSIVE Val(_, _)
Val(e, env) ==
  CASE e.k = "c" -> e.v
    [] e.k = "n" -> env[e.n]
    [] e.k = "b" -> LET a == Val(e.l, env)  b == Val(e.r, env)
                    IN CASE e.op = "+" -> a + b [] e.op = "-" -> a - b [] e.op = "*" -> a * b

RECURSIVE IndexMust(_), IndexMay(_)
(* index expressions, sizes and limits of loops that have to be understood *)
IndexMust(e) == \/ e.k = "n"
                \/ e.k = "c" /\ e.form = "dec"
                \/ e.k = "b" /\ e.op \in {"+", "-", "*"} /\ IndexMust(e.l) /\ IndexMust(e.r)
(* those that may be understood, but only as what they are *)
IndexMay(e) == \/ e.k = "n"
               \/ e.k = "c" /\ e.form \in {"dec", "hex", "oct"}
               \/ e.k = "b" /\ e.op \in {"+", "-", "*"} /\ IndexMay(e.l) /\ IndexMay(e.r)

(******************************* the subset *******************************)
RECURSIVE Value(_, _, _)
(* strict: what has to be accepted *)
Value(e, decls, strict) ==
  CASE e.k = "f" -> TRUE
    [] e.k = "a" -> /\ \A x \in 1..Len(e.ix) : IF strict THEN IndexMust(e.ix[x]) ELSE IndexMay(e.ix[x])
    [] e.k = "b" -> /\ e.op \in {"+", "-", "*", "/"}
                    /\ Value(e.l, decls, strict) /\ Value(e.r, decls, strict)
    [] e.k = "u" -> /\ e.op \in {"-", "++", "--", "p++", "p--"}
                    /\ e.op # "-" => e.l.k = "a"
                    /\ Value(e.l, decls, strict)
    [] OTHER -> FALSE

Types == {"double", "float", "double _Complex", "float _Complex"}
Index(e, strict) == IF strict THEN IndexMust(e) ELSE IndexMay(e)
GoodLoop(l, strict) ==
  /\ l.cond = "<" /\ l.next \in {"++", "p++", "+="}
  /\ l.cvar = l.i /\ l.nvar = l.i
  /\ l.declared = 1
  /\ Index(l.s, strict) /\ Index(l.e, strict) /\ l.d.k = "c" /\ Index(l.d, strict)
GoodProgram(p, strict) ==
  /\ Len(p.loops) > 0
  /\ \A x \in 1..Len(p.loops) : GoodLoop(p.loops[x], strict)
  /\ \A x \in 1..Len(p.decls) : /\ p.decls[x].type \in Types
                                /\ p.decls[x].type = p.decls[1].type
                                /\ \A d \in 1..Len(p.decls[x].dims) : Index(p.decls[x].dims[d], strict)
  /\ Len(p.body) > 0
  /\ \A x \in 1..Len(p.body) :
        /\ p.body[x].kind = "assign"
        /\ p.body[x].op \in {"=", "+=", "-=", "*=", "/="}
        /\ p.body[x].lhs.k = "a" /\ Value(p.body[x].lhs, p.decls, strict)
        /\ Value(p.body[x].rhs, p.decls, strict)
  /\ \A x \in 1..Len(p.between) : p.between[x] = "pragma"
  /\ \A x \in 1..Len(p.after) : p.after[x] = "swap"
MustAccept(p) == GoodProgram(p, TRUE)
MayAccept(p) == GoodProgram(p, FALSE)

(******************************** accesses ********************************)
RECURSIVE ReadBy(_), WrittenBy(_)
(* sequences of accesses which an expression reads and writes *)
ReadBy(e) == CASE e.k = "a" -> <<e>>
               [] e.k = "b" -> ReadBy(e.l) \o ReadBy(e.r)
               [] e.k = "u" -> ReadBy(e.l)
               [] OTHER -> <<>>
WrittenBy(e) == CASE e.k = "b" -> WrittenBy(e.l) \o WrittenBy(e.r)
                  [] e.k = "u" -> (IF e.op = "-" THEN <<>> ELSE <<e.l>>) \o WrittenBy(e.l)
                  [] OTHER -> <<>>
Reads(s) == (IF s.op = "=" THEN <<>> ELSE <<s.lhs>>) \o ReadBy(s.rhs)
Writes(s) == WrittenBy(s.rhs) \o <<s.lhs>>
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
AllReads(p) == Concat([x \in 1..Len(p.body) |-> Reads(p.body[x])])
AllWrites(p) == Concat([x \in 1..Len(p.body) |-> Writes(p.body[x])])

(* An access is identified by the values of its indices for several values of all names. *)
Key(a, envs) == <<a.n, [d \in 1..Len(a.ix) |-> [v \in 1..Len(envs) |-> Val(a.ix[d], envs[v])]]>>
Keys(as, envs) == {Key(as[x], envs) : x \in 1..Len(as)}

RECURSIVE Count(_, _)
(* number of operations op in an expression *)
Count(e, op) == CASE e.k = "b" -> (IF e.op = op THEN 1 ELSE 0) + Count(e.l, op) + Count(e.r, op)
                  [] e.k = "u" -> (IF e.op = op \/ (op = "+" /\ e.op \in {"++", "p++"})
                                       \/ (op = "-" /\ e.op \in {"--", "p--"}) THEN 1 ELSE 0)
                                  + Count(e.l, op)
                  [] OTHER -> 0
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Operations(p, op) ==
  Sum([x \in 1..Len(p.body) |-> Count(p.body[x].rhs, op) + (IF p.body[x].op = op \o "=" THEN 1 ELSE 0)])

(********************************* loops *********************************)
Length(l, env) == LET s == Val(l.s, env)  e == Val(l.e, env)  d == Val(l.d, env)
                  IN IF e > s THEN (e - s + d - 1) \div d ELSE 0
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
Iterations(p, env) == Product([x \in 1..Len(p.loops) |-> Length(p.loops[x], env)])
RECURSIVE Unwind(_, _, _, _)
Unwind(loops, t, env, cs) ==
  IF loops = <<>> THEN env
  ELSE LET l == loops[Len(loops)]
           n == Length(l, cs)
       IN Unwind(SubSeq(loops, 1, Len(loops) - 1), t \div n,
                 (l.i :> (Val(l.s, cs) + (t % n) * Val(l.d, cs))) @@ env, cs)
(* constants and loop counters of iteration t (counted from 0) *)
At(p, env, t) == Unwind(p.loops, t, env, env)
Indices(p) == {p.loops[x].i : x \in 1..Len(p.loops)}

(****************************** addresses ******************************)
Decl(p, n) == p.decls[CHOOSE x \in 1..Len(p.decls) : p.decls[x].name = n]
Declared(p, n) == \E x \in 1..Len(p.decls) : p.decls[x].name = n
IsArray(p, n) == Declared(p, n) /\ Decl(p, n).dims # <<>>
Elements(p, n, env) == LET d == Decl(p, n).dims
                       IN Product([x \in 1..Len(d) |-> Val(d[x], env)])
RECURSIVE RowMajor(_, _, _, _)
RowMajor(ix, dims, acc, env) ==
  IF ix = <<>> THEN acc
  ELSE RowMajor(Tail(ix), Tail(dims), acc * Val(Head(dims), env) + Val(Head(ix), env), env)
(* number of the element of its array which an access goes to *)
Element(p, a, env) == IF a.ix = <<>> THEN 0 ELSE RowMajor(a.ix, Decl(p, a.n).dims, 0, env)

SizeOf(type) == CASE type = "double" -> 8 [] type = "float" -> 4
                  [] type = "double _Complex" -> 16 [] type = "float _Complex" -> 8
(* Arrays lie in alphabetical order (p.order), each starts at a cache line *)
RoundUp(x, cl) == ((x + cl - 1) \div cl) * cl
RECURSIVE BaseOf(_, _, _, _, _)
BaseOf(p, k, env, cl, spacing) ==
  IF k = 1 THEN 0
  ELSE BaseOf(p, k - 1, env, cl, spacing)
       + RoundUp(Elements(p, p.order[k-1], env) * SizeOf(Decl(p, p.order[k-1]).type) + spacing, cl)
Base(p, n, env, cl, spacing) ==
  BaseOf(p, CHOOSE k \in 1..Len(p.order) : p.order[k] = n, env, cl, spacing)
Address(p, a, env, cs, cl, spacing) ==
  Base(p, a.n, cs, cl, spacing) + SizeOf(Decl(p, a.n).type) * Element(p, a, env)

(* The same modulo m, for arrays with more elements than there are integers here *)
RECURSIVE ProductMod(_, _), RowMajorMod(_, _, _, _, _)
ProductMod(s, m) == IF s = <<>> THEN 1 % m ELSE ((Head(s) % m) * ProductMod(Tail(s), m)) % m
RowMajorMod(ix, dims, acc, env, m) ==
  IF ix = <<>> THEN acc
  ELSE RowMajorMod(Tail(ix), Tail(dims), (acc * (Val(Head(dims), env) % m) + (Val(Head(ix), env) % m)) % m, env, m)
ElementMod(p, a, env, m) == IF a.ix = <<>> THEN 0 ELSE RowMajorMod(a.ix, Decl(p, a.n).dims, 0, env, m)
ElementsMod(p, n, env, m) == LET d == Decl(p, n).dims
                             IN ProductMod([x \in 1..Len(d) |-> Val(d[x], env)], m)
(* what is missing to the next line *)
Fill(p, n, env, cl, spacing) ==
  (0 - (ElementsMod(p, n, env, cl) * SizeOf(Decl(p, n).type) + spacing)) % cl
RECURSIVE BaseMod(_, _, _, _, _, _)
BaseMod(p, k, env, cl, spacing, m) ==
  IF k = 1 THEN 0
  ELSE LET n == p.order[k-1] IN
       (BaseMod(p, k - 1, env, cl, spacing, m) + ElementsMod(p, n, env, m) * SizeOf(Decl(p, n).type) + spacing
        + Fill(p, n, env, cl, spacing)) % m
AddressMod(p, a, env, cs, cl, spacing, m) ==
  (BaseMod(p, CHOOSE k \in 1..Len(p.order) : p.order[k] = a.n, cs, cl, spacing, m)
   + SizeOf(Decl(p, a.n).type) * ElementMod(p, a, env, m)) % m

(* Accesses whose address depends on a loop counter: all others stay in registers. envs have    *)
(* values for all names                                                                         *)
Moves(p, a, envs) ==
  \E v \in 1..Len(envs), i \in Indices(p) :
     Element(p, a, envs[v]) # Element(p, a, [envs[v] EXCEPT ![i] = @ + 1])
(* One access for each key, only of arrays, only moving ones *)
RECURSIVE Distinct(_, _, _, _)
Distinct(p, as, seen, envs) ==
  IF as = <<>> THEN <<>>
  ELSE LET a == Head(as)  k == Key(a, envs)
       IN IF ~IsArray(p, a.n) \/ k \in seen THEN Distinct(p, Tail(as), seen, envs)
          ELSE (IF Moves(p, a, envs) THEN <<a>> ELSE <<>>)
               \o Distinct(p, Tail(as), seen \union {k}, envs)
Loaded(p, envs) == Distinct(p, AllReads(p), {}, envs)
Stored(p, envs) == Distinct(p, AllWrites(p), {}, envs)

(******************************* execution *******************************)
RECURSIVE Eval(_, _, _, _)
Eval(p, e, m, env) ==
  CASE e.k = "f" -> e.v
    [] e.k = "a" -> IF Declared(p, e.n) THEN m[e.n][Element(p, e, env) + 1] ELSE env[e.n]
    [] e.k = "u" -> 0 - Eval(p, e.l, m, env)
    [] e.k = "b" -> LET a == Eval(p, e.l, m, env)  b == Eval(p, e.r, m, env)
                    IN CASE e.op = "+" -> a + b [] e.op = "-" -> a - b [] e.op = "*" -> a * b
Apply(op, old, x) == CASE op = "=" -> x [] op = "+=" -> old + x [] op = "-=" -> old - x [] op = "*=" -> old * x
Execute(p, s, m, env) ==
  LET x == Eval(p, s.rhs, m, env)
      k == Element(p, s.lhs, env) + 1
  IN [m EXCEPT ![s.lhs.n][k] = Apply(s.op, @, x)]
Touched(p, s, env) ==
  [x \in 1..Len(Reads(s)) |-> <<"read", Reads(s)[x].n, Element(p, Reads(s)[x], env)>>]
  \o [x \in 1..Len(Writes(s)) |-> <<"write", Writes(s)[x].n, Element(p, Writes(s)[x], env)>>]

Init(Programs, Settings, Initially(_, _)) ==
  /\ prog \in Programs /\ consts \in Settings
  /\ it = 0 /\ st = 1 /\ mem = Initially(prog, consts) /\ log = <<>>
Statement ==
  /\ it < Iterations(prog, consts)
  /\ LET env == At(prog, consts, it)
         s == prog.body[st]
     IN /\ mem' = Execute(prog, s, mem, env)
        /\ log' = Touched(prog, s, env)
  /\ UNCHANGED <<prog, consts>>
  /\ IF st = Len(prog.body) THEN st' = 1 /\ it' = it + 1 ELSE st' = st + 1 /\ it' = it
Finished == it = Iterations(prog, consts)

(****************************** properties ******************************)
(* accesses of arrays stay within their arrays (of programs that are C) *)
InBounds == \A x \in 1..Len(log) :
   IsArray(prog, log[x][2]) => log[x][3] \in 0..(Elements(prog, log[x][2], consts) - 1)
(* different elements of different arrays have different addresses *)
Region(n, cl, sp) == LET b == Base(prog, n, consts, cl, sp)
                     IN b..(b + Elements(prog, n, consts) * SizeOf(Decl(prog, n).type) - 1)
Disjoint == \A cl \in {32, 64}, sp \in {0, 24} :
   \A a, b \in SeqToSet(prog.order) :
      a # b => Region(a, cl, sp) \cap Region(b, cl, sp) = {}
(* iterations are numbered in lexicographic order of the counters, each combination occurs once *)
CounterSeq(t) == LET env == At(prog, consts, t)
                 IN [x \in 1..Len(prog.loops) |-> env[prog.loops[x].i]]
Before(a, b) == \E x \in 1..Len(a) : a[x] < b[x] /\ \A y \in 1..(x-1) : a[y] = b[y]
Lexicographic == it + 1 < Iterations(prog, consts) => Before(CounterSeq(it), CounterSeq(it + 1))
Terminates == <>Finished
=============================================================================
