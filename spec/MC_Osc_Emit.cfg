SPECIFICATION Spec
CONSTANTS MaxSamples = 12 MaxSets = 2 Emit = TRUE
VIEW TestView
ACTION_CONSTRAINT EmitTest
INVARIANTS Accumulated Shapes Bounded
CHECK_DEADLOCK FALSE
