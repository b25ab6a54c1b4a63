SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS LIMIT = 1
VALS = {0}
FULL = TRUE
