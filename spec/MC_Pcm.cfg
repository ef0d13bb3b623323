SPECIFICATION Spec
CONSTANTS Stride = 4097
INVARIANTS Unique Wire Ends
PROPERTIES Increasing
CHECK_DEADLOCK FALSE
