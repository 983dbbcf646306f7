SPECIFICATION Spec
INVARIANT Complete Export
PROPERTY Grows Served
CHECK_DEADLOCK FALSE
