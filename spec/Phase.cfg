SPECIFICATION Spec
INVARIANT Laws Export
CHECK_DEADLOCK FALSE
