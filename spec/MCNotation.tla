----------------------------- MODULE MCNotation -----------------------------
EXTENDS Notation
MCRanges == {<<"0", "2">>, <<"7", "9">>, <<"1", "1">>, <<"3", "0">>, <<"A", "C">>, <<"B", "A">>, <<"b", "d">>, <<"y", "B">>, <<"Y", "1">>, <<"1", "A">>}
Events == {"L1D_REPLACEMENT", "A", "CAS_COUNT_RD", "UOPS_PORT_0"}
Regs == {"PMC0", "PMC[0-3]", "MBOX0C[01]", "PMC[0-1]|PMC[23]", "FIXC1"}
Params == {"EDGEDETECT", "THRESHOLD=0x926", "STATE=0xF0", "X-Y=a_1"}
EvInit == /\ Init
EvNext == \E e \in Events, r \in Regs :
            \E n \in 0..MaxParams : \E ps \in [1..n -> Params] :
              /\ phase = "empty" /\ phase' = "end" /\ text' = Join(e, r, ps)
              /\ PrintT(ToJson([text |-> text', event |-> e, reg |-> r, params |-> ps]))
              /\ UNCHANGED <<done, cur, grp, len, nalt, params, plen>>
EvSpec == EvInit /\ [][EvNext]_vars
=============================================================================
