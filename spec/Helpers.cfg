CONSTANT Rout = {"ipq", "gpr"}
CONSTANT Params = {"aniso", "epermH", "epermV", "mpermH", "mpermV"}
CONSTANT Gains = {"none", "zero", "half", "one", "neg"}
SPECIFICATION Spec
INVARIANT Sound
INVARIANT Export
CHECK_DEADLOCK FALSE
