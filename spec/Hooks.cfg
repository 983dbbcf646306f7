CONSTANT MaxLayers = 4
CONSTANT Routines = {"dipole", "bipole", "loop", "analytical fs", "analytical dhs", "gpr"}
SPECIFICATION Spec
INVARIANT Sound
INVARIANT Export
CHECK_DEADLOCK FALSE
