SPECIFICATION Spec
INVARIANT OneObject
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS NV = 2
DEPTH = 4
