SPECIFICATION Spec
CONSTANTS MaxSched = 3 Pieces = {1, 7, 44, 1000} Emit = FALSE
INVARIANTS WellFormed Truncated Allowed Hidden Honest
CHECK_DEADLOCK FALSE
