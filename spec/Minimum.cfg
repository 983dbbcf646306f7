SPECIFICATION RandomSpec
INVARIANTS NeverLowered WarnIffReplaced ReadsLastSet Export
PROPERTIES OnlyGiven
CHECK_DEADLOCK FALSE
