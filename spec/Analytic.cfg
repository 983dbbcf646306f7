CONSTANT MaxReq = 2
CONSTANT Free = FALSE
SPECIFICATION Spec
INVARIANT Sound
INVARIANT Anchored
INVARIANT Export
CHECK_DEADLOCK FALSE
