SPECIFICATION Spec
INVARIANTS Partition Calls Export
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
