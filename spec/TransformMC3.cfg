SPECIFICATION Spec
INVARIANT OneObject
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS NV = 3
DEPTH = 4
