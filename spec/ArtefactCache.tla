---------------------------- MODULE ArtefactCache ----------------------------
(* Intermediate artefacts next to a kernel, shared by several processes.        *)
(*                                                                             *)
(* A process wants some artefacts. To get one it locks it (first shared; if the *)
(* file is missing or stale, exclusively, and looks again), and if it is still  *)
(* missing or stale, gets the artefacts it is made from, writes it under        *)
(* another name, renames it, degrades its lock and goes on. Then it uses the    *)
(* artefact under the shared lock. Processes may be killed at any point and the *)
(* source may be edited or touched at any point.                                *)
(*                                                                             *)
(* Paths carry the content of the source the process has read (ContentKeys);    *)
(* files appear complete (AtomicWrite); the file is looked at again under the   *)
(* exclusive lock (Recheck); locks are kept while a file is used (HoldInUse).   *)
(* Each of the four can be switched off, which has to break a property: that is *)
(* what the configurations MCArtefactNo*.cfg show.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Wants,             \* Wants[p]: sequence of artefacts p asks for
          Deps,                     \* Deps[a]: sequence of artefacts a is made from
          MaxEdits, MaxTouches, MaxKills,
          ContentKeys, AtomicWrite, Recheck, HoldInUse

Arts == DOMAIN Deps
Versions == 0..MaxEdits
NoFile == [v |-> -1, whole |-> TRUE, stamp |-> 0]

VARIABLES lock,     \* lock[path][p] in {"no", "sh", "ex"}
          file,     \* file[path]
          src,      \* version of the source and when it was changed
          clock,
          mine,     \* version of the source p has read (-1: not yet)
          stack,    \* stack[p]: requests in progress, innermost last
          todo,     \* todo[p]: number of wants p is done with
          dead, edits, touches, kills
vars == <<lock, file, src, clock, mine, stack, todo, dead, edits, touches, kills>>

Key(v) == IF ContentKeys THEN v ELSE 0
Paths == {<<a, Key(v)>> : a \in Arts, v \in Versions}
Path(p, a) == <<a, Key(mine[p])>>
Fresh(path) == file[path].v # -1 /\ file[path].stamp > src.stamp
(* someone else keeps p from getting the lock *)
OthersHold(path, p) == \E q \in Procs \ {p} : lock[path][q] # "no"
OthersWrite(path, p) == \E q \in Procs \ {p} : lock[path][q] = "ex"

Top(p) == stack[p][Len(stack[p])]
Here(p) == Path(p, Top(p).art)
Live(p) == p \notin dead
Busy(p, pc) == Live(p) /\ stack[p] # <<>> /\ Top(p).pc = pc
SetTop(p, f) == stack' = [stack EXCEPT ![p][Len(stack[p])] = f]
Goto(p, pc) == SetTop(p, [Top(p) EXCEPT !.pc = pc])
SetLock(p, m) == lock' = [lock EXCEPT ![Here(p)][p] = m]
Frame(a) == [art |-> a, pc |-> "shared", dep |-> 0]

Init == /\ lock = [x \in Paths |-> [p \in Procs |-> "no"]]
        /\ file = [x \in Paths |-> NoFile]
        /\ src = [v |-> 0, stamp |-> 1] /\ clock = 1
        /\ mine = [p \in Procs |-> -1] /\ stack = [p \in Procs |-> <<>>]
        /\ todo = [p \in Procs |-> 0] /\ dead = {} /\ edits = 0 /\ touches = 0 /\ kills = 0

Start(p) == /\ Live(p) /\ mine[p] = -1
            /\ mine' = [mine EXCEPT ![p] = src.v]
            /\ UNCHANGED <<lock, file, src, clock, stack, todo, dead, edits, touches, kills>>
Ask(p) == /\ Live(p) /\ mine[p] # -1 /\ stack[p] = <<>> /\ todo[p] < Len(Wants[p])
          /\ stack' = [stack EXCEPT ![p] = <<Frame(Wants[p][todo[p] + 1])>>]
          /\ UNCHANGED <<lock, file, src, clock, mine, todo, dead, edits, touches, kills>>
(* shared lock, then look *)
Shared(p) == /\ Busy(p, "shared") /\ ~OthersWrite(Here(p), p)
             /\ SetLock(p, "sh") /\ Goto(p, "look")
             /\ UNCHANGED <<file, src, clock, mine, todo, dead, edits, touches, kills>>
Look(p) == /\ Busy(p, "look")
           /\ Goto(p, IF Fresh(Here(p)) THEN "use" ELSE "drop")
           /\ UNCHANGED <<lock, file, src, clock, mine, todo, dead, edits, touches, kills>>
Drop(p) == /\ Busy(p, "drop") /\ SetLock(p, "no") /\ Goto(p, "exclusive")
           /\ UNCHANGED <<file, src, clock, mine, todo, dead, edits, touches, kills>>
Exclusive(p) == /\ Busy(p, "exclusive") /\ ~OthersHold(Here(p), p)
                /\ SetLock(p, "ex") /\ Goto(p, IF Recheck THEN "relook" ELSE "deps")
                /\ UNCHANGED <<file, src, clock, mine, todo, dead, edits, touches, kills>>
Relook(p) == /\ Busy(p, "relook")
             /\ Goto(p, IF Fresh(Here(p)) THEN "degrade" ELSE "deps")
             /\ UNCHANGED <<lock, file, src, clock, mine, todo, dead, edits, touches, kills>>
(* the artefacts it is made from, which stay locked (shared) until it is written *)
NextDep(p) == /\ Busy(p, "deps")
              /\ LET t == Top(p)
                     n == Len(stack[p])
                 IN IF t.dep < Len(Deps[t.art])
                    THEN stack' = [stack EXCEPT ![p] = Append([stack[p] EXCEPT ![n].dep = t.dep + 1],
                                                             Frame(Deps[t.art][t.dep + 1]))]
                    ELSE Goto(p, "write")
              /\ UNCHANGED <<lock, file, src, clock, mine, todo, dead, edits, touches, kills>>
(* without AtomicWrite the incomplete file is visible while it is written *)
Write(p) == /\ Busy(p, "write") /\ clock' = clock + 1
            /\ file' = IF AtomicWrite THEN file
                       ELSE [file EXCEPT ![Here(p)] = [v |-> mine[p], whole |-> FALSE, stamp |-> clock + 1]]
            /\ Goto(p, "finish")
            /\ UNCHANGED <<lock, src, mine, todo, dead, edits, touches, kills>>
(* what it is made of counts: an artefact is only as good as the ones it was made from *)
Made(p) == LET t == Top(p) IN
  \A i \in DOMAIN Deps[t.art] : LET f == file[Path(p, Deps[t.art][i])] IN f.whole /\ f.v = mine[p]
Finish(p) == /\ Busy(p, "finish") /\ clock' = clock + 1
             /\ file' = [file EXCEPT ![Here(p)] =
                          [v |-> mine[p], whole |-> Made(p), stamp |-> clock + 1]]
             /\ lock' = [x \in Paths |-> IF \E i \in DOMAIN Deps[Top(p).art] : x = Path(p, Deps[Top(p).art][i])
                                         THEN [lock[x] EXCEPT ![p] = "no"] ELSE lock[x]]
             /\ Goto(p, "degrade")
             /\ UNCHANGED <<src, mine, todo, dead, edits, touches, kills>>
(* degrading is not atomic: the exclusive lock is dropped first *)
Degrade(p) == /\ Busy(p, "degrade") /\ SetLock(p, "no") /\ Goto(p, "degraded")
              /\ UNCHANGED <<file, src, clock, mine, todo, dead, edits, touches, kills>>
Degraded(p) == /\ Busy(p, "degraded") /\ ~OthersWrite(Here(p), p)
               /\ SetLock(p, IF HoldInUse THEN "sh" ELSE "no") /\ Goto(p, "use")
               /\ UNCHANGED <<file, src, clock, mine, todo, dead, edits, touches, kills>>
(* back to the one that needs it (keeping the lock), or use it *)
Use(p) == /\ Busy(p, "use")
          /\ IF Len(stack[p]) > 1
             THEN stack' = [stack EXCEPT ![p] = SubSeq(stack[p], 1, Len(stack[p]) - 1)]
             ELSE Goto(p, "using")
          /\ UNCHANGED <<lock, file, src, clock, mine, todo, dead, edits, touches, kills>>
Used(p) == /\ Busy(p, "using")
           /\ SetLock(p, "no")
           /\ stack' = [stack EXCEPT ![p] = <<>>] /\ todo' = [todo EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<file, src, clock, mine, dead, edits, touches, kills>>

Kill(p) == /\ Live(p) /\ stack[p] # <<>> /\ kills < MaxKills
           /\ dead' = dead \union {p} /\ kills' = kills + 1
           /\ lock' = [x \in Paths |-> [lock[x] EXCEPT ![p] = "no"]]
           /\ UNCHANGED <<file, src, clock, mine, stack, todo, edits, touches>>
Edit == /\ edits < MaxEdits /\ clock' = clock + 1 /\ edits' = edits + 1
        /\ src' = [v |-> src.v + 1, stamp |-> clock + 1]
        /\ UNCHANGED <<lock, file, mine, stack, todo, dead, touches, kills>>
Touch == /\ touches < MaxTouches /\ clock' = clock + 1 /\ touches' = touches + 1
         /\ src' = [src EXCEPT !.stamp = clock + 1]
         /\ UNCHANGED <<lock, file, mine, stack, todo, dead, edits, kills>>

Step(p) == Start(p) \/ Ask(p) \/ Shared(p) \/ Look(p) \/ Drop(p) \/ Exclusive(p) \/ Relook(p) \/ NextDep(p)
           \/ Write(p) \/ Finish(p) \/ Degrade(p) \/ Degraded(p) \/ Use(p) \/ Used(p)
Finished(p) == ~Live(p) \/ todo[p] = Len(Wants[p])
AllDone == (\A p \in Procs : Finished(p)) /\ UNCHANGED vars
Next == (\E p \in Procs : Step(p)) \/ (\E p \in Procs : Kill(p)) \/ Edit \/ Touch \/ AllDone
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))
-----------------------------------------------------------------------------
(* files that p uses right now: what it asked for, and what it makes something from *)
InUse(p) == IF ~Live(p) \/ stack[p] = <<>> THEN {}
            ELSE IF Top(p).pc = "using" THEN {Here(p)}
            ELSE IF Top(p).pc \in {"write", "finish"}
                 THEN {Path(p, Deps[Top(p).art][i]) : i \in DOMAIN Deps[Top(p).art]} ELSE {}
Writing(p) == IF Live(p) /\ stack[p] # <<>> /\ Top(p).pc = "finish" THEN {Here(p)} ELSE {}

OneWriter == \A p, q \in Procs : p # q => Writing(p) \intersect Writing(q) = {}
NotClobbered == \A p, q \in Procs : p # q => InUse(p) \intersect Writing(q) = {}
WholeInUse == \A p \in Procs : \A x \in InUse(p) : file[x].whole /\ file[x].v # -1
(* the outcome is that of the source the process has read *)
RightInUse == \A p \in Procs : \A x \in InUse(p) : file[x].v = mine[p]
(* what another process has just finished is not made again *)
NoWaste == \A p \in Procs : Live(p) /\ stack[p] # <<>> /\ Top(p).pc = "write" => ~Fresh(Here(p))
ExclusiveAlone == \A x \in Paths : \A p, q \in Procs :
                    p # q /\ lock[x][p] = "ex" => lock[x][q] = "no"
AllFinish == <>(\A p \in Procs : Finished(p))
=============================================================================
