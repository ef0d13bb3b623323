SPECIFICATION Spec
CONSTANTS Values = {0, 7, 10, 99, 100, 255} MaxLen = 4 Wide = 9 Content <- Itself
INVARIANTS Progress Live Exact Honest
CHECK_DEADLOCK FALSE
