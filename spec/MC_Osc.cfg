SPECIFICATION Spec
CONSTANTS MaxSamples = 40 MaxSets = 3 Emit = FALSE
VIEW View
INVARIANTS Accumulated Shapes Bounded Continuous
CHECK_DEADLOCK FALSE
