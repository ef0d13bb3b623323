SPECIFICATION Spec
CONSTANTS MaxObjs = 3 MaxSteps = 8 Kinds = {"saw"} Emit = TRUE
VIEW TestView
ACTION_CONSTRAINT EmitTest
INVARIANTS Independent Same
CHECK_DEADLOCK FALSE
