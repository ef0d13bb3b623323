SPECIFICATION Spec
CONSTANTS MaxSteps = 1 Levels <- AllLevels Seen = TRUE Emit = FALSE
INVARIANTS OnlyReleased Proper NeverStuck Timely
PROPERTIES InOrder StaysSilent
CHECK_DEADLOCK FALSE
