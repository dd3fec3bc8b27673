--------------------------- MODULE MCCommandLine ---------------------------
EXTENDS CommandLine
D(key, kind, a, b) == [key |-> key, kind |-> kind, a |-> a, b |-> b, n |-> 0]
MCPool == {D("N", "one", 20, 0), D("N", "one", 21, 0), D("N", "range", 20, 21), D("M", "one", 20, 0),
           D("M", "range", 30, 31), D(".", "one", 20, 0), D(".", "range", 22, 23), D("X", "one", 9, 0),
           D("N", "bad", 0, 0), D("M", "range", 5, 4)}
MCModels == {<<"A">>, <<"A", "B">>, <<"B", "A", "B">>}
SimModels == {<<"A">>, <<"A", "B">>}
=============================================================================
