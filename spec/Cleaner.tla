------------------------------- MODULE Cleaner -------------------------------
(* Removal of comments, preprocessor lines and pragmas from C source text.      *)
(* A text is a sequence of characters (1-character strings; "#pragma" is one    *)
(* symbol). Phase 1 blanks directive lines (with continuation lines), phase 2   *)
(* is a character automaton that removes // and /* */ comments but keeps every  *)
(* newline. Line/position bookkeeping states that nothing else changes.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Alphabet, MaxLen, Flags, Emit

NL == "\n"   SP == " "   BS == "\\"   HASH == "#"   PRAGMA == "#pragma"

(* ---- phase 1: lines ------------------------------------------------------ *)
RECURSIVE SplitLines(_, _, _)
SplitLines(t, cur, acc) ==
  IF t = <<>> THEN Append(acc, cur)
  ELSE IF Head(t) = NL THEN SplitLines(Tail(t), <<>>, Append(acc, cur))
  ELSE SplitLines(Tail(t), Append(cur, Head(t)), acc)

RECURSIVE JoinLines(_)
JoinLines(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<NL>> \o JoinLines(Tail(ls))

First(l) == LET s == SelectSeq(l, LAMBDA c : c # SP) IN IF s = <<>> THEN "" ELSE s[1]
LastC(l) == LET s == SelectSeq(l, LAMBDA c : c # SP) IN IF s = <<>> THEN "" ELSE s[Len(s)]

IsMacro(l) == First(l) = HASH
IsPragma(l) == First(l) = PRAGMA

RECURSIVE Blank(_, _, _, _, _)
Blank(ls, macros, pragmas, inM, inP) ==
  IF ls = <<>> THEN <<>>
  ELSE LET l == Head(ls)
           m == macros /\ (IsMacro(l) \/ inM)
           p == pragmas /\ (IsPragma(l) \/ inP)
           cont == LastC(l) = BS
       IN <<IF m \/ p THEN <<>> ELSE l>> \o
          Blank(Tail(ls), macros, pragmas, IF m THEN cont ELSE inM, IF p THEN cont ELSE inP)

Lines(t, macros, pragmas) == JoinLines(Blank(SplitLines(t, <<>>, <<>>), macros, pragmas, FALSE, FALSE))

(* ---- phase 2: comment automaton ------------------------------------------ *)
(* mode: code | line | block; held: text of an open block comment (restored if  *)
(* it is never closed); nls: newlines inside it; skip: characters already used  *)
Start == [mode |-> "code", out |-> <<>>, held |-> <<>>, nls |-> 0, skip |-> 0]

StepChar(s, c, n) ==      \* c: this character, n: the next one ("" at the end)
  IF s.skip > 0 THEN [s EXCEPT !.skip = @ - 1]
  ELSE CASE s.mode = "code" /\ c = "/" /\ n = "/" -> [s EXCEPT !.mode = "line", !.skip = 1]
         [] s.mode = "code" /\ c = "/" /\ n = "*" ->
              [s EXCEPT !.mode = "block", !.skip = 1, !.held = <<c, n>>, !.nls = 0]
         [] s.mode = "code" /\ ~(c = "/" /\ n \in {"/", "*"}) -> [s EXCEPT !.out = Append(@, c)]
         [] s.mode = "line" /\ c = NL -> [s EXCEPT !.mode = "code", !.out = Append(@, c)]
         [] s.mode = "line" /\ c # NL -> s
         [] s.mode = "block" /\ c = "*" /\ n = "/" ->
              [s EXCEPT !.mode = "code", !.skip = 1, !.held = <<>>,
                        !.out = @ \o [i \in 1..s.nls |-> NL]]
         [] s.mode = "block" /\ ~(c = "*" /\ n = "/") ->
              [s EXCEPT !.held = Append(@, c), !.nls = @ + (IF c = NL THEN 1 ELSE 0)]
EndText(s) == IF s.mode = "block" THEN s.out \o s.held ELSE s.out

At(t, i) == IF i <= Len(t) THEN t[i] ELSE ""
Comments(t) ==
  EndText(FoldLeft(LAMBDA s, i : StepChar(s, t[i], At(t, i + 1)), Start, [i \in 1..Len(t) |-> i]))

Clean(t, f) ==
  LET u == IF f.macros \/ f.pragmas THEN Lines(t, f.macros, f.pragmas) ELSE t
  IN IF f.comments THEN Comments(u) ELSE u

(* ---- exhaustive model ------------------------------------------------------ *)
VARIABLES text, flags, lined, pos, st, pc
vars == <<text, flags, lined, pos, st, pc>>
Count(t, c) == Len(SelectSeq(t, LAMBDA x : x = c))

Init == /\ text \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
        /\ flags \in Flags
        /\ lined = <<>> /\ pos = 1 /\ st = Start /\ pc = "lines"
DoLines == /\ pc = "lines"
           /\ lined' = IF flags.macros \/ flags.pragmas
                       THEN Lines(text, flags.macros, flags.pragmas) ELSE text
           /\ pc' = IF flags.comments THEN "scan" ELSE "end"
           /\ st' = IF flags.comments THEN st ELSE [st EXCEPT !.out = lined']
           /\ UNCHANGED <<text, flags, pos>>
Scan == /\ pc = "scan" /\ pos <= Len(lined)
        /\ st' = StepChar(st, lined[pos], At(lined, pos + 1))
        /\ pos' = pos + 1 /\ UNCHANGED <<text, flags, lined, pc>>
Eot == /\ pc = "scan" /\ pos > Len(lined)
       /\ st' = [st EXCEPT !.out = EndText(st), !.held = <<>>] /\ pc' = "end"
       /\ UNCHANGED <<text, flags, lined, pos>>
Out == /\ pc = "end" /\ pc' = "done"
       /\ UNCHANGED <<text, flags, lined, pos, st>>
       /\ IF Emit THEN PrintT(ToJson([t |-> text, f |-> flags, o |-> st.out])) ELSE TRUE
Next == DoLines \/ Scan \/ Eot \/ Out
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* properties *)
RECURSIVE IsSubseq(_, _)
IsSubseq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF a[1] = b[1] THEN IsSubseq(Tail(a), Tail(b)) ELSE IsSubseq(a, Tail(b))
LinesKept == pc = "done" => Count(st.out, NL) = Count(text, NL)
OnlyRemoves == pc = "done" => IsSubseq(st.out, text)
(* while in code mode, the scanner is on the line of its output *)
LineNumbers == (pc = "scan" /\ st.mode = "code") =>
                 Count(st.out, NL) = Count(SubSeq(lined, 1, pos - 1), NL)
(* a text without comment openers or directives is returned unchanged *)
NoOpener == pc = "done" /\ Count(text, HASH) = 0 /\ Count(text, PRAGMA) = 0
            /\ (\A i \in 1..(Len(text) - 1) : ~(text[i] = "/" /\ text[i + 1] \in {"/", "*"}))
            => st.out = text
DirectivesGone == pc = "done" /\ flags.macros =>
    \A i \in DOMAIN SplitLines(st.out, <<>>, <<>>) :
       First(SplitLines(lined, <<>>, <<>>)[i]) # HASH
AgreesWithFold == pc = "done" => st.out = Clean(text, flags)
Terminates == <>(pc = "done")
=============================================================================
