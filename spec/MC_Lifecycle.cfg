SPECIFICATION Spec
CONSTANTS MaxObjs = 3 MaxSteps = 6 Kinds = {"saw", "delay"} Emit = FALSE
VIEW View
INVARIANTS Independent Same
CHECK_DEADLOCK FALSE
