CONSTANT Routines = {"bipole", "dipole", "analytical", "dipole_k", "ip_and_q"}
CONSTANT MaxReasons = 3
CONSTANT Verbs = {0, 1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Silent Monotone Warranted Separate Everybody OneIsEnough Ordered Export
CHECK_DEADLOCK FALSE
