SPECIFICATION Spec
CONSTANTS MaxBlocks = 4 MaxPasses = 3 Emit = FALSE
VIEW View
INVARIANTS InSeries
PROPERTIES Frozen OneToggle AllTogether
CHECK_DEADLOCK FALSE
