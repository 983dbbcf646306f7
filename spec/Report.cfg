SPECIFICATION Spec
INVARIANT Reported
PROPERTY Finishes
