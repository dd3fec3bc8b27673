---------------------------- MODULE MCKernelLang ----------------------------
(* Execution of a few kernels for several settings of their constants. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
c(v) == [k |-> "c", v |-> v, form |-> "dec"]
n(x) == [k |-> "n", n |-> x]
b(l, op, r) == [k |-> "b", op |-> op, l |-> l, r |-> r]
a(x, ix) == [k |-> "a", n |-> x, ix |-> ix]
loop(i, s, e, d) == [i |-> i, s |-> s, e |-> e, d |-> c(d), cond |-> "<", next |-> "+=", cvar |-> i, nvar |-> i,
                     declared |-> 1]
set(l, op, r) == [kind |-> "assign", op |-> op, lhs |-> l, rhs |-> r]
arr(x, dims, t) == [name |-> x, dims |-> dims, type |-> t]
program(decls, order, loops, body) == [decls |-> decls, order |-> order, loops |-> loops, body |-> body,
                                    between |-> <<>>, after |-> <<>>]
N == n("N")   M == n("M")   i == n("i")   j == n("j")
P(x) == CASE
  x = 1 -> program(<<arr("u", <<N>>, "double"), arr("s", <<>>, "double")>>, <<"u">>,
                <<loop("i", c(1), b(N, "-", c(1)), 1)>>,
                <<set(a("u", <<i>>), "+=", b(a("u", <<b(i, "-", c(1))>>), "*", a("s", <<>>)))>>)
  [] x = 2 -> program(<<arr("b", <<N, b(M, "+", c(1))>>, "float"), arr("a", <<N, M>>, "float")>>, <<"a", "b">>,
                <<loop("i", c(0), N, 2), loop("j", c(1), M, 1)>>,
                <<set(a("a", <<i, j>>), "=", b(a("b", <<i, b(j, "-", c(1))>>), "+", a("b", <<i, b(j, "+", c(1))>>))),
                  set(a("b", <<i, j>>), "-=", a("a", <<b(b(N, "-", c(1)), "-", i), j>>))>>)
  [] x = 3 -> program(<<arr("z", <<b(N, "*", M)>>, "double _Complex")>>, <<"z">>,
                <<loop("i", c(0), N, 1), loop("j", c(0), M, 3)>>,
                <<set(a("z", <<b(b(i, "*", M), "+", j)>>), "=", b(a("z", <<b(b(i, "*", M), "+", j)>>), "+", a("i", <<>>)))>>)
CONSTANTS Programs, Ns, Ms
VARIABLES prog, consts, it, st, mem, log
R == INSTANCE KernelLang
Contents(p, cs) == [x \in {p.decls[d].name : d \in 1..Len(p.decls)} |->
                     [e \in 1..R!Elements(p, x, cs) |-> e % 3]]
Init == R!Init({P(x) : x \in Programs}, [N: Ns, M: Ms], Contents)
Next == R!Statement
Spec == Init /\ [][Next]_<<prog, consts, it, st, mem, log>> /\ WF_<<prog, consts, it, st, mem, log>>(Next)
InBounds == R!InBounds
Disjoint == R!Disjoint
Lexicographic == R!Lexicographic
Subset == R!MustAccept(prog) /\ R!MayAccept(prog)
Terminates == <>(it = R!Iterations(prog, consts))
=============================================================================
