SPECIFICATION Spec
CONSTANTS MaxSteps = 6 Inputs = {0, 1, 3} Emit = TRUE
ACTION_CONSTRAINT EmitTest
INVARIANTS Delayed Echoed Filtered Forgets Skippable
CHECK_DEADLOCK FALSE
