SPECIFICATION Spec
INVARIANTS Lengths MomentIsVector Export
PROPERTIES SwapNegates Linear Alone
VIEW View
CHECK_DEADLOCK FALSE
