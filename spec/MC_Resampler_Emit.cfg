SPECIFICATION Spec
CONSTANTS MaxSteps = 7 MaxSets = 1 MaxLen = 4 Speeds = {945, 2835, 3780, 9450, 21735} Emit = TRUE
VIEW TestView
ACTION_CONSTRAINT EmitTest
INVARIANTS Where Inside LoopPlaced Endless Interpolates
CHECK_DEADLOCK FALSE
