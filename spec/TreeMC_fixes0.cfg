SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS MODE = "fixes"
MAXN = 8
BIG = 0
