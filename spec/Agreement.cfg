CONSTANT Methods = {"dlf", "qwe", "qwe-spline", "qwe-quad", "quad"}
CONSTANT Depth = 2
SPECIFICATION Spec
INVARIANTS Agree Reported Kinds Export
CHECK_DEADLOCK FALSE
