SPECIFICATION Spec
CONSTANTS MaxSteps = 12 MaxSets = 2 MaxLen = 4 Speeds = {0, 945, 2835, 3780, 9450, 21735} Emit = FALSE
VIEW View
INVARIANTS Where Inside LoopPlaced Endless Interpolates
PROPERTIES OverIsOver
CHECK_DEADLOCK FALSE
