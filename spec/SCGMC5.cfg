SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS FS = {0, 1, 2, 100000000, 100000001}
MAXIT = 5
