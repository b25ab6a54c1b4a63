SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 5
OFF = 1
SIZE = 3
OFF2 = 1
SIZE2 = 2
