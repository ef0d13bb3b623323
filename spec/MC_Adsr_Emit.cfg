SPECIFICATION Spec
CONSTANTS MaxSteps = 14 Levels <- AllLevels Seen = FALSE Emit = TRUE
VIEW TestView
ACTION_CONSTRAINT EmitTest
INVARIANTS OnlyReleased NeverStuck Timely
CHECK_DEADLOCK FALSE
