SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS LIMIT = 2
VALS = {0}
FULL = TRUE
