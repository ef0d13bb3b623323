SPECIFICATION Spec
CONSTANTS MaxNodes = 3 MaxPasses = 2 Kinds = {"raw"} Emit = FALSE Seconds = 400
VIEW View
INVARIANTS OrderOK Confluent NothingLeft
PROPERTIES EachOnce Frozen MutedSilent OneToggle KeptWaiting RunsTogether
CHECK_DEADLOCK FALSE
CONSTRAINT Budget
