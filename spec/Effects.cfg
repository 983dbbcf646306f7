CONSTANT Stops = 3
SPECIFICATION Spec
INVARIANTS Equivalence Distinct Export
CHECK_DEADLOCK FALSE
