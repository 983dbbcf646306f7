SPECIFICATION Spec
INVARIANTS Best Meaning Export
CHECK_DEADLOCK FALSE
