SPECIFICATION Spec
CONSTANTS Kinds = {"db", "lerp", "mean", "pan", "time"}
INVARIANTS Db Lerp Likeness Mean4 Pan Time
CHECK_DEADLOCK FALSE
