CONSTANT Kinds = {"sign", "scale", "path"}
CONSTANT MaxE = 2
CONSTANT MaxF = 3
SPECIFICATION Spec
INVARIANT Wavenumber
INVARIANT Consistent
INVARIANT OneDomain
INVARIANT Order
INVARIANT Export
CHECK_DEADLOCK FALSE
