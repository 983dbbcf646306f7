SPECIFICATION Spec
INVARIANTS FlagSound Independent Export
PROPERTIES Frozen OnlyShrinks
