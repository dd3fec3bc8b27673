SPECIFICATION Spec
CONSTANTS
  Far = 12
  Arrays = {"a", "b"}
  MaxCap = 40
  MaxAccesses = 3
INVARIANTS AsPredicted Monotone
