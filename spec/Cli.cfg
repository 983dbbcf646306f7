SPECIFICATION Spec
INVARIANT Export
PROPERTY Safe
CHECK_DEADLOCK FALSE
