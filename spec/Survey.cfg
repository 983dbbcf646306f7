SPECIFICATION Spec
INVARIANTS OwnPairOnly CompleteWhenDone Export
PROPERTIES OnlyGrows Finishes
CHECK_DEADLOCK FALSE
