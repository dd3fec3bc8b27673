------------------------------ MODULE CacheKeys ------------------------------
(* What has to be told apart by the names of cached artefacts.                  *)
(*                                                                             *)
(* An artefact is made from other artefacts and from parts of the situation a   *)
(* kerncraft run is started in (the kernel, its constants, the machine          *)
(* description, the compiler, ...). It is stored under a name that tells apart  *)
(* situations by some of their parts. A run uses what it finds under that name, *)
(* or makes and stores it; reports are made anew from what they need.           *)
(*                                                                             *)
(* Transparent: whatever runs were before, a run reports what it would report   *)
(* with an empty cache. That needs the name of an artefact to have all parts it *)
(* is made from, directly or not: with one of them missing (weak), a run that   *)
(* reports something else has to be possible. The histories that show it are    *)
(* what the real code is put through: each would show if the real names missed  *)
(* that part.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRuns, Weaken, FirstWants, NextWants, Emit

Values == [ kernel |-> 0..3, consts |-> 0..2, more |-> 0..1, sets |-> 0..1, cl |-> 0..1, flags |-> 0..1,
            arch |-> 0..1, bw |-> 0..1, model |-> 0..1, compiler |-> 0..1, cflags |-> 0..6, cores |-> 0..1,
            block |-> 0..2, incr |-> 0..2, where |-> 0..1, file |-> 0..1 ]
Dims == DOMAIN Values
Building == {"compiler", "cflags", "flags"}
Own == [ header |-> {"kernel", "more"},
         code |-> {"kernel", "consts", "more"},
         ompcode |-> {"kernel", "consts", "more"},
         main |-> {"kernel", "cl", "more"},
         asm |-> Building, obj |-> Building, ompobj |-> Building, exe |-> Building, ompexe |-> Building,
         marked |-> {"block", "incr"},
         incore |-> {"model", "arch"},
         lc |-> {"kernel", "consts", "sets", "cl", "cores"},
         sim |-> {"kernel", "consts", "sets", "cl", "cores"},
         ecm |-> {"bw", "cores"}, ecmdata |-> {"bw", "cores"}, roofline |-> {"bw", "cores"}, lcs |-> {"kernel"} ]
Made == [ header |-> {}, code |-> {}, ompcode |-> {}, main |-> {"header"}, asm |-> {"code"}, obj |-> {"code"},
          ompobj |-> {"ompcode"}, exe |-> {"obj", "main"}, ompexe |-> {"ompobj", "main"}, marked |-> {"asm"},
          incore |-> {"marked"}, lc |-> {}, sim |-> {}, ecm |-> {"incore", "lc"}, ecmdata |-> {"sim"},
          roofline |-> {"incore", "sim"}, lcs |-> {} ]
Reports == {"ecm", "ecmdata", "roofline", "lcs"}      \* these are not stored
Arts == DOMAIN Own
RECURSIVE Needs(_), Below(_)
Needs(a) == Own[a] \cup UNION {Needs(b) : b \in Made[a]}
Below(a) == {a} \cup UNION {Below(b) : b \in Made[a]}

VARIABLES weak,     \* <<a, d>>: d is missing in the name of a; <<"", "">>: none is
          store,    \* what is stored
          hist,     \* runs so far
          wrong     \* the last run reported something else
vars == <<weak, store, hist, wrong>>

Key(a) == IF a = weak[1] THEN Needs(a) \ {weak[2]} ELSE Needs(a)
Name(a, sit) == <<a, [d \in Key(a) |-> sit[d]]>>
Content(a, sit, made) == [own |-> [d \in Own[a] |-> sit[d]], made |-> made]
RECURSIVE Fresh(_, _)
Fresh(a, sit) == Content(a, sit, {<<b, Fresh(b, sit)>> : b \in Made[a]})

(* getting an artefact: s is what is stored afterwards, c the content *)
RECURSIVE Get(_, _, _), GetAll(_, _, _)
Get(s, a, sit) ==
    LET found == {x \in s : x.name = Name(a, sit)} IN
    IF found # {} THEN [s |-> s, c |-> (CHOOSE x \in found : TRUE).content]
    ELSE LET m == GetAll(s, Made[a], sit)
             c == Content(a, sit, m.c)
         IN [s |-> IF a \in Reports THEN m.s ELSE m.s \cup {[name |-> Name(a, sit), content |-> c]}, c |-> c]
GetAll(s, as, sit) ==
    IF as = {} THEN [s |-> s, c |-> {}]
    ELSE LET a == CHOOSE x \in as : TRUE
             g == Get(s, a, sit)
             r == GetAll(g.s, as \ {a}, sit)
         IN [s |-> r.s, c |-> r.c \cup {<<a, g.c>>}]

Base == [d \in Dims |-> 0]
(* one part is another, or block and increment are exchanged *)
Changes(sit) == {sit, [sit EXCEPT !.block = sit.incr, !.incr = sit.block]} \cup UNION {{[sit EXCEPT ![d] = v] : v \in Values[d]} : d \in Dims}
Before == IF hist = <<>> THEN Base ELSE hist[Len(hist)].sit
Weaknesses == {<<a, d>> \in (Arts \ Reports) \X Dims : d \in Needs(a)}

Init == /\ weak \in (IF Weaken THEN Weaknesses ELSE {<<"", "">>})
        /\ store = {} /\ hist = <<>> /\ wrong = FALSE
Run(w, sit) ==
    LET g == Get(store, w, sit)
        h == Append(hist, [want |-> w, sit |-> sit])
        bad == g.c # Fresh(w, sit)
    IN /\ store' = g.s /\ hist' = h /\ wrong' = bad /\ UNCHANGED weak
Runs == /\ ~wrong /\ Len(hist) < MaxRuns
        /\ \E w \in (IF hist = <<>> THEN FirstWants ELSE NextWants) : \E sit \in Changes(Before) :
             /\ (Weaken /\ hist = <<>>) => weak[1] \in Below(w)
             /\ Run(w, sit)
Done == weak[1] # "done" /\ weak' = <<"done", "">>
(* tell the history: one that went wrong, or (without weak names) any complete one *)
Tell == /\ Emit /\ Done /\ (wrong \/ (~Weaken /\ Len(hist) = MaxRuns))
        /\ PrintT(ToJson([weak |-> weak, hist |-> hist])) /\ UNCHANGED <<store, hist, wrong>>
Next == weak[1] # "done" /\ (Runs \/ Tell)
Spec == Init /\ [][Next]_vars

Transparent == ~wrong
(* a needless part in a name would be harmless, but here is none *)
TypeOK == weak[1] # "done" => \A x \in store : DOMAIN x.name[2] = Key(x.name[1])
=============================================================================
