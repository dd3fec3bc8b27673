------------------------------ MODULE Notation ------------------------------
(* LIKWID counter notation as kerncraft reads and writes it.                    *)
(*                                                                             *)
(* A register notation is read left to right; the state machine below consumes  *)
(* one token per step and keeps the set of registers denoted so far:            *)
(*   done  registers of the alternatives closed by "|"                          *)
(*   cur   beginnings denoted by the current alternative                        *)
(*   grp   characters collected in the open bracket group ("none" if closed)    *)
(* TLC enumerates all notations up to a bound; every complete one is emitted    *)
(* with its denotation and replayed into the code.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chars, Ranges, Words, MaxLen, MaxDone, MaxParams, Emit

Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Digit == <<"0","1","2","3","4","5","6","7","8","9">>
Order == Lower \o Upper \o Digit
Pos(c) == CHOOSE i \in DOMAIN Order : Order[i] = c
Between(a, b) == {Order[i] : i \in {j \in DOMAIN Order : Pos(a) <= j /\ j <= Pos(b)}}
Times(xs, ys) == {x \o y : x \in xs, y \in ys}

VARIABLES text, done, cur, grp, len, nalt, phase, params, plen
vars == <<text, done, cur, grp, len, nalt, phase, params, plen>>
Init == /\ text = "" /\ done = {} /\ cur = {""} /\ grp = <<>> /\ len = 0 /\ nalt = 0
        /\ phase = "empty" /\ params = <<>> /\ plen = 0
(* phase: empty - current alternative has no item yet; plain - between items;   *)
(*        open - directly after "["; group - inside a group; end - finished     *)
Room == len < MaxLen
Char(c) == /\ phase \in {"empty", "plain"} /\ Room
           /\ text' = text \o c /\ cur' = Times(cur, {c}) /\ phase' = "plain" /\ len' = len + 1
           /\ UNCHANGED <<done, grp, nalt, params, plen>>
Word(w) == Char(w)
Open == /\ phase \in {"empty", "plain"} /\ len + 1 < MaxLen
        /\ text' = text \o "[" /\ grp' = <<{}>> /\ phase' = "open" /\ len' = len + 1
        /\ UNCHANGED <<done, cur, nalt, params, plen>>
Member(t, s) == /\ phase \in {"open", "group"} /\ Room
                /\ text' = text \o t /\ grp' = <<grp[1] \cup s>> /\ phase' = "group" /\ len' = len + 1
                /\ UNCHANGED <<done, cur, nalt, params, plen>>
Close == /\ phase = "group"
         /\ text' = text \o "]" /\ cur' = Times(cur, grp[1]) /\ grp' = <<>> /\ phase' = "plain"
         /\ UNCHANGED <<done, len, nalt, params, plen>>
Bar == /\ phase = "plain" /\ nalt < MaxDone /\ Room
       /\ text' = text \o "|" /\ done' = done \cup cur /\ cur' = {""} /\ phase' = "empty"
       /\ nalt' = nalt + 1 /\ UNCHANGED <<grp, len, params, plen>>
Finish == /\ phase = "plain"
          /\ phase' = "end" /\ done' = done \cup cur
          /\ IF Emit THEN PrintT(ToJson([text |-> text, regs |-> done'])) ELSE TRUE
          /\ UNCHANGED <<text, cur, grp, len, nalt, params, plen>>
Next == \/ \E c \in Chars : Char(c)
        \/ \E w \in Words : Word(w)
        \/ Open \/ Close \/ Bar \/ Finish
        \/ \E c \in Chars : Member(c, {c})
        \/ \E r \in Ranges : Member(r[1] \o "-" \o r[2], Between(r[1], r[2]))
Spec == Init /\ [][Next]_vars

(* ---- properties of the reading ---------------------------------------------- *)
Grows == [][done \subseteq done']_vars                    \* closed alternatives stay
OnlyBarExtends == [][done' # done => phase = "plain"]_vars
Bounded == Cardinality(cur) <= 2000

(* ---- event notation: EVENT:REGISTERS[:PARAMETER]... -------------------------- *)
Join(ev, reg, ps) ==
  LET RECURSIVE J(_)
      J(s) == IF s = <<>> THEN "" ELSE ":" \o s[1] \o J(Tail(s))
  IN ev \o ":" \o reg \o J(ps)
=============================================================================
