SPECIFICATION Spec
INVARIANTS Causal Additive Constant Export
PROPERTIES SameResponse
CHECK_DEADLOCK FALSE
