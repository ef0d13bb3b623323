SPECIFICATION Spec
CONSTANTS MaxSched = 4 Pieces = {1, 7, 44, 1000} Emit = TRUE
ACTION_CONSTRAINT EmitTest
INVARIANTS Allowed Hidden Honest
CHECK_DEADLOCK FALSE
