SPECIFICATION Spec
CONSTANTS MaxSteps = 6 Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitTest
PROPERTIES Consumed Untouched
CHECK_DEADLOCK FALSE
