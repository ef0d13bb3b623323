SPECIFICATION Spec
CONSTANTS MaxChannels = 1 MaxSounds = 2 MaxSteps = 6 Emit = FALSE
VIEW View
INVARIANTS IdsUnique Registered OthersUnregistered OnePlace
PROPERTIES NeverReused AllTogether PausedStay RightLength Apart
CHECK_DEADLOCK FALSE
