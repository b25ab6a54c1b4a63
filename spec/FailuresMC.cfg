SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS LIMIT = 2
DEPTH = 4
STAGES = {"", "ValueError"}
ERR = "ValueError"
