SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS MODE = "copies"
MAXN = 8
BIG = 0
