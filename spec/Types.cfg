SPECIFICATION Spec
INVARIANTS TypeOK Export
PROPERTIES OneMore BaseKept
CHECK_DEADLOCK FALSE
