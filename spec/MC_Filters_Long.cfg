SPECIFICATION Spec
CONSTANTS MaxSteps = 6000 Dense = TRUE Starts <- OneStart
VIEW View
INVARIANTS Agrees Bound NotNegative Settled Consistent
CHECK_DEADLOCK FALSE
