SPECIFICATION Spec
VIEW View
INVARIANTS WellFormed Export
CHECK_DEADLOCK FALSE
