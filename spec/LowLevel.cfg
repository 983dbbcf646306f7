CONSTANT Kinds = {"core", "wavenumber"}
CONSTANT MaxCalls = 2
CONSTANT Free = FALSE
SPECIFICATION Spec
INVARIANT Needed
INVARIANT Ordered
INVARIANT Shapes
INVARIANT Export
CHECK_DEADLOCK FALSE
