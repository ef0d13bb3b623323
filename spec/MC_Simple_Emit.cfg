SPECIFICATION Spec
CONSTANTS MaxBlocks = 3 MaxPasses = 1 Emit = TRUE
VIEW TestView
ACTION_CONSTRAINT EmitTest
INVARIANTS InSeries
CHECK_DEADLOCK FALSE
