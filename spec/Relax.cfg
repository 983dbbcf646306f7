SPECIFICATION Spec
INVARIANTS OnOff Derivative Causal Linear ByTime Export
CHECK_DEADLOCK FALSE
