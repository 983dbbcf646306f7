SPECIFICATION Spec
INVARIANTS Right Export
