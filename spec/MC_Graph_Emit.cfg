SPECIFICATION Spec
CONSTANTS MaxNodes = 3 MaxPasses = 1 Kinds = {"raw"} Emit = TRUE Seconds = 400
VIEW TestView
ACTION_CONSTRAINT EmitTest
INVARIANTS OrderOK
CHECK_DEADLOCK FALSE
