CONSTANTS
 MaxV = 4
 MaxLen = 3
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS MeaningKept Disjoint ReachesCanon LengthIsCardinality MembershipExact NormalAgrees
PROPERTY Terminates
