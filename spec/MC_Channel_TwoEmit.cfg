SPECIFICATION Spec
CONSTANTS MaxChannels = 2 MaxSounds = 2 MaxSteps = 5 Emit = TRUE
VIEW TestView
ACTION_CONSTRAINT EmitTest
INVARIANTS IdsUnique Registered OthersUnregistered OnePlace
CHECK_DEADLOCK FALSE
