---------------------------- MODULE ArtefactTrace ----------------------------
(* Operations of real processes on the artefacts, in the order they happened.   *)
(* One event per step; the state says who has which file open, uses it, and     *)
(* when a file was last produced. Locks are those of ArtefactCache.tla, taken   *)
(* from the real calls.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          locks,    \* <<lock file, process, handle, mode>>
          writers,  \* <<file, process, handle>> open for writing
          readers,  \* the same for reading
          uses,     \* <<file, process>>
          begun,    \* <<file, process, line>>: last time a process opened file for writing
          made      \* <<file, process, line>>: last time a process put file in place by renaming
vars == <<l, locks, writers, readers, uses, begun, made>>
E == Trace[l]
Bad(clause, want) == PrintT(ToJson([line |-> l, clause |-> clause, want |-> ToString(want)]))
Check(c, clause, want) == IF c THEN TRUE ELSE Bad(clause, want)

Start == CHOOSE x \in {b[3] : b \in {b \in begun : b[1] = E.f /\ b[2] = E.p}} \union {0} :
           \A y \in {b[3] : b \in {b \in begun : b[1] = E.f /\ b[2] = E.p}} : y <= x
Others(S, f) == {x \in S : x[1] = f /\ x[2] # E.p}
Below(S, d) == {x \in S : x[2] # E.p /\ Len(x[1]) > Len(d) /\ SubSeq(x[1], 1, Len(d)) = d}

Clauses ==
  CASE E.op = "open-w" ->
         /\ Check(Others(writers, E.f) = {}, "two-writers", Others(writers, E.f))
         /\ Check(Others(readers, E.f) = {}, "overwritten-while-read", Others(readers, E.f))
         /\ Check(Others(uses, E.f) = {}, "overwritten-while-used", Others(uses, E.f))
    [] E.op = "open-r" ->
         Check(Others(writers, E.f) = {}, "read-while-written", Others(writers, E.f))
    [] E.op = "use-begin" ->
         Check(Others(writers, E.f) = {}, "used-while-written", Others(writers, E.f))
    [] E.op = "replace" ->
         /\ Check(Others(uses, E.g) = {}, "replaced-while-used", Others(uses, E.g))
         /\ Check(Others(writers, E.g) = {}, "replaced-while-written", Others(writers, E.g))
         /\ Check({m \in Others(made, E.g) : m[3] > Start} = {}, "made-at-the-same-time", Others(made, E.g))
         /\ Check(Others(writers, E.f) = {}, "incomplete-file-renamed", Others(writers, E.f))
    [] E.op = "unlink" ->
         Check(Others(uses, E.f) = {}, "removed-while-used", Others(uses, E.f))
    [] E.op = "rmtree" ->
         Check(Below(uses \union writers, E.f \o "/") = {}, "removed-while-used",
               Below(uses \union writers, E.f \o "/"))
    [] E.op = "flock" /\ E.res = "ok" /\ E.mode \in {"SH", "EX"} ->
         \* assumption on the system: locks exclude each other
         Check({k \in locks : k[1] = E.f /\ <<k[2], k[3]>> # <<E.p, E.fd>>
                              /\ (E.mode = "EX" \/ k[4] = "EX")} = {}, "lock-granted-twice", locks)
    [] OTHER -> TRUE

Mine(S) == {x \in S : x[2] = E.p}
Handle(S) == {x \in S : x[2] = E.p /\ x[3] = E.fd}
Next ==
  /\ l <= Len(Trace)
  /\ Clauses
  /\ LET ok == E.res = "ok" IN
     /\ writers' = CASE E.op = "reset" -> {}
                     [] E.op = "open-w" /\ ok -> writers \union {<<E.f, E.p, E.fd>>}
                     [] E.op = "close" -> writers \ Handle(writers)
                     [] E.op \in {"kill", "exit"} -> writers \ Mine(writers)
                     [] OTHER -> writers
     /\ readers' = CASE E.op = "reset" -> {}
                     [] E.op = "open-r" /\ ok -> readers \union {<<E.f, E.p, E.fd>>}
                     [] E.op = "close" -> readers \ Handle(readers)
                     [] E.op \in {"kill", "exit"} -> readers \ Mine(readers)
                     [] OTHER -> readers
     /\ locks' = CASE E.op = "reset" -> {}
                   [] E.op = "flock" -> {k \in locks : ~(k[2] = E.p /\ k[3] = E.fd)} \union
                        (IF ok /\ E.mode # "UN" THEN {<<E.f, E.p, E.fd, E.mode>>} ELSE {})
                   [] E.op = "close" -> locks \ Handle(locks)
                   [] E.op \in {"kill", "exit"} -> locks \ Mine(locks)
                   [] OTHER -> locks
     /\ uses' = CASE E.op = "reset" -> {}
                  [] E.op = "use-begin" -> uses \union {<<E.f, E.p>>}
                  [] E.op = "use-end" -> uses \ {<<E.f, E.p>>}
                  [] E.op \in {"kill", "exit"} -> uses \ Mine(uses)
                  [] OTHER -> uses
     /\ begun' = CASE E.op = "reset" -> {}
                   [] E.op = "open-w" /\ ok -> {b \in begun : ~(b[1] = E.f /\ b[2] = E.p)} \union {<<E.f, E.p, l>>}
                   [] OTHER -> begun
     /\ made' = CASE E.op = "reset" -> {}
                  [] E.op = "replace" /\ ok -> {m \in made : ~(m[1] = E.g /\ m[2] = E.p)} \union {<<E.g, E.p, l>>}
                  [] OTHER -> made
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == l = 1 /\ locks = {} /\ writers = {} /\ readers = {} /\ uses = {} /\ begun = {} /\ made = {}
        /\ [][Next]_vars
=============================================================================
