SPECIFICATION Spec
INVARIANT Roles
INVARIANT Sound
INVARIANT Export
CHECK_DEADLOCK FALSE
