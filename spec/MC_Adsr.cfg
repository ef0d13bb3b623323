SPECIFICATION Spec
CONSTANTS MaxSteps = 1 Levels <- TwoLevels Seen = FALSE Emit = FALSE
INVARIANTS OnlyReleased Proper NeverStuck Timely
PROPERTIES InOrder FallsSilent Sustains StaysSilent
CHECK_DEADLOCK FALSE
