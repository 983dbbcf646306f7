SPECIFICATION Spec
INVARIANTS Export
PROPERTIES Stable
CHECK_DEADLOCK FALSE
