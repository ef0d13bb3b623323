SPECIFICATION Spec
CONSTANTS MaxSteps = 40 Dense = TRUE Starts <- AllStarts
VIEW View
INVARIANTS Agrees Bound NotNegative Settled Consistent
CHECK_DEADLOCK FALSE
