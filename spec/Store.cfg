SPECIFICATION Spec
INVARIANT Export Final
PROPERTY OneFile CopyFaithful
CHECK_DEADLOCK FALSE
