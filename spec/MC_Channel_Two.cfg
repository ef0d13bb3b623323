SPECIFICATION Spec
CONSTANTS MaxChannels = 2 MaxSounds = 2 MaxSteps = 5 Emit = FALSE
VIEW View
INVARIANTS IdsUnique Registered OthersUnregistered OnePlace
PROPERTIES NeverReused AllTogether PausedStay RightLength Apart
CHECK_DEADLOCK FALSE
