SPECIFICATION Spec2
INVARIANT Series
INVARIANT Complete
INVARIANT Transparent
INVARIANT Export2
CHECK_DEADLOCK FALSE
