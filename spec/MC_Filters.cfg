SPECIFICATION Spec
CONSTANTS MaxSteps = 12 Dense = FALSE Starts <- AllStarts
VIEW View
INVARIANTS Agrees Bound NotNegative Settled Consistent
CHECK_DEADLOCK FALSE
