CONSTANT MaxStep = 4
SPECIFICATION Spec
INVARIANTS Ok Bounded Scales UnitsAgree
PROPERTY Grows
CHECK_DEADLOCK FALSE
