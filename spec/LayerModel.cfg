SPECIFICATION Spec
INVARIANTS SameMeaning AlwaysWellFormed Export
PROPERTIES DictKept
CHECK_DEADLOCK FALSE
