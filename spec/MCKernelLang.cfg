SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Programs = {1, 2, 3}
 Ns = {3, 4, 5}
 Ms = {2, 3, 4}
INVARIANTS InBounds Disjoint Lexicographic Subset
PROPERTY Terminates
