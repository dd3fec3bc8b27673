--------------------------- MODULE MCArtefactCache ---------------------------
(* Programs of kerncraft: in-core analysis, benchmark executable, and the      *)
(* artefacts they are made from.                                               *)
EXTENDS ArtefactCache, Json
CONSTANTS Programs, Emit
MCDeps == [code |-> <<>>, header |-> <<>>, main |-> <<>>, asm |-> <<"header", "code">>,
           marked |-> <<"asm">>, incore |-> <<"marked">>, obj |-> <<"header", "code">>,
           exe |-> <<"main", "obj">>, lc |-> <<>>]
SmallDeps == [code |-> <<>>, header |-> <<>>, asm |-> <<"header", "code">>, marked |-> <<"asm">>]
Chain == [code |-> <<>>, asm |-> <<"code">>]
Pairs == [a |-> <<"asm">>, b |-> <<"asm">>]
MixedPair == [a |-> <<"incore">>, b |-> <<"exe">>]
SamePair == [a |-> <<"incore">>, b |-> <<"incore">>]
Triple == [a |-> <<"asm">>, b |-> <<"asm">>, c |-> <<"code">>]
Triple2 == [a |-> <<"marked">>, b |-> <<"asm">>, c |-> <<"header">>]
Twice == [a |-> <<"asm", "code">>, b |-> <<"asm">>]
(* the steps taken, as a schedule to be replayed into real processes *)
VARIABLE log
Label == CHOOSE x \in {<<p, 0>> : p \in Procs} \union {<<"edit", 0>>, <<"touch", 0>>, <<"done", 0>>} \union {<<p, 1>> : p \in Procs} :
   \/ x[1] = "edit" /\ edits' # edits
   \/ x[1] = "touch" /\ touches' # touches
   \/ x[2] = 1 /\ x[1] \in dead' \ dead
   \/ x[1] = "done" /\ vars' = vars
   \/ x[2] = 0 /\ x[1] \in Procs /\ edits' = edits /\ touches' = touches /\ dead' = dead /\ vars' # vars
      /\ (stack'[x[1]] # stack[x[1]] \/ mine'[x[1]] # mine[x[1]])
(* where the step leads, so that the replay can follow it *)
Where(p) == IF p \notin Procs THEN "" ELSE IF stack'[p] = <<>> THEN "idle"
            ELSE stack'[p][Len(stack'[p])].pc
LogInit == Init /\ log = <<>>
LogNext == /\ Next /\ vars' # vars
           /\ log' = Append(log, <<Label[1], Label[2], Where(Label[1])>>)
           /\ IF Emit /\ \A p \in Procs : ~(p \notin dead' /\ todo'[p] < Len(Wants[p]))
              THEN PrintT(ToJson([log |-> log'])) ELSE TRUE
LogSpec == LogInit /\ [][LogNext]_<<vars, log>>
MCSpec == Init /\ log = <<>> /\ [][Next /\ log' = log]_<<vars, log>>
          /\ \A p \in Procs : WF_<<vars, log>>(Step(p) /\ log' = log)
=============================================================================
