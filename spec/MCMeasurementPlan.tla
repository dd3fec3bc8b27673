-------------------------- MODULE MCMeasurementPlan --------------------------
EXTENDS MeasurementPlan
Q(e, t, r, p) == [event |-> e, text |-> t, regs |-> r, params |-> p]
P4 == {"PMC0", "PMC1", "PMC2", "PMC3"}
MCPool == {Q("A", "PMC0", {"PMC0"}, <<>>), Q("A", "PMC[0-1]", {"PMC0", "PMC1"}, <<>>),
           Q("B", "PMC0", {"PMC0"}, <<>>), Q("A", "PMC0", {"PMC0"}, <<"EDGE">>),
           Q("C", "PMC1|PMC0", {"PMC0", "PMC1"}, <<>>), Q("D", "MBOX[0-1]C[01]", {"MBOX0C0", "MBOX0C1", "MBOX1C0", "MBOX1C1"}, <<>>),
           Q("D", "MBOX0C0", {"MBOX0C0"}, <<"X=0x1", "EDGE">>)}
SmallPool == {Q("A", "PMC0", {"PMC0"}, <<>>), Q("A", "PMC[0-1]", {"PMC0", "PMC1"}, <<>>),
           Q("B", "PMC0", {"PMC0"}, <<>>), Q("C", "PMC1|PMC0", {"PMC0", "PMC1"}, <<>>)}
BigPool == MCPool \cup {Q("E", "PMC[0-3]", P4, <<>>), Q("F", "PMC[0-3]", P4, <<>>), Q("G", "PMC[0-3]", P4, <<>>),
           Q("H", "PMC[0-3]", P4, <<>>), Q("I", "PMC[0-3]", P4, <<"EDGE">>), Q("J", "FIXC0", {"FIXC0"}, <<>>),
           Q("K", "PMC3", {"PMC3"}, <<>>), Q("K", "PMC[2-3]", {"PMC2", "PMC3"}, <<"T=1">>)}
(* requests only *)
ReqNext == (\E q \in Pool : Request(q)) \/ Start
(* metrics over counters whose names contain each other *)
Ctrs == {"A:PMC1", "A:PMC10", "AA:PMC1", "A:PMC1:EDGE", "A:PMC1:X=1", "A:PMC1:X_1", "B_X:PMC[0-3]",
         "B_X:PMC[0-3]:STATE=0xF0", "A:PMC0|PMC1", "SYM0:PMC1"}
C(c) == [op |-> "c", c |-> c]
N(n) == [op |-> "n", n |-> n]
B(o, l, r) == [op |-> o, l |-> l, r |-> r]
Value == [c \in Ctrs |-> CASE c = "A:PMC1" -> 3 [] c = "A:PMC10" -> 50 [] c = "AA:PMC1" -> 700 [] c = "A:PMC1:EDGE" -> 11000
              [] c = "A:PMC1:X=1" -> 130 [] c = "A:PMC1:X_1" -> 17 [] c = "B_X:PMC[0-3]" -> 19000
              [] c = "B_X:PMC[0-3]:STATE=0xF0" -> 230 [] c = "A:PMC0|PMC1" -> 290 [] c = "SYM0:PMC1" -> 5]
Pairs == {B(o, C(a), C(b)) : o \in {"+", "-", "Max"}, a \in Ctrs, b \in Ctrs}
Triples(S) == {B(o, p, C(c)) : o \in {"+", "Max"}, p \in S, c \in Ctrs}
Metrics1 == {C(c) : c \in Ctrs} \cup Pairs \cup {B("*", N(2), p) : p \in Pairs}
MetricInit == req \in {<<e>> : e \in Metrics1} \cup {<<e>> : e \in Triples(Pairs)} /\ plan = <<>> /\ phase = "metric"
MetricNext == /\ phase = "metric" /\ phase' = "end" /\ UNCHANGED <<req, plan>>
              /\ PrintT(ToJson([text |-> Show(req[1]), val |-> Val(req[1], Value), ctrs |-> Counters(req[1]),
                                of |-> [c \in Counters(req[1]) |-> Value[c]]]))
MetricSpec == MetricInit /\ [][MetricNext]_vars
=============================================================================
