------------------------------ MODULE MCCleaner ------------------------------
EXTENDS Cleaner
FlagsComments == {[comments |-> TRUE, macros |-> FALSE, pragmas |-> FALSE]}
FlagsAll == [comments : BOOLEAN, macros : BOOLEAN, pragmas : BOOLEAN]
AlphaComments == {"a", "/", "*", "\n"}
AlphaAll == {"a", " ", "#", "#pragma", "\\", "\n", "/", "*"}
=============================================================================
