SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS MAXR = 2
OBS = {1, 2}
CBS = {1, 2}
PRIOS = {0, 1, 2}
