SPECIFICATION Spec
INVARIANTS Additive HomZero AtMostOneDirect Export
PROPERTIES Switch
CHECK_DEADLOCK FALSE
