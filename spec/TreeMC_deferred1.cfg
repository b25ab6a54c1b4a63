SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS MODE = "deferred"
MAXN = 8
BIG = 1
