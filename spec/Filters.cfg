SPECIFICATION Spec
INVARIANT Faithful LastWins Export
PROPERTY Separate
CHECK_DEADLOCK FALSE
