SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS LIMIT = 1
DEPTH = 3
STAGES = {"", "LinAlgError", "ZeroDivisionError", "KeyError", "FloatingPointError"}
ERR = "ValueError"
