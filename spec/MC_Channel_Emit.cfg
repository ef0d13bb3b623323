SPECIFICATION Spec
CONSTANTS MaxChannels = 1 MaxSounds = 2 MaxSteps = 6 Emit = TRUE
VIEW TestView
ACTION_CONSTRAINT EmitTest
INVARIANTS IdsUnique Registered OthersUnregistered OnePlace
CHECK_DEADLOCK FALSE
