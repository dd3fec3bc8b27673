CONSTANT MaxStep = 3
SPECIFICATION Spec
INVARIANTS Smallest UnitsAgree
PROPERTY Monotone
CHECK_DEADLOCK FALSE
