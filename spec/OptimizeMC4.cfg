SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NRUN = 4
FS = {1,  100000000, 100000001}
ERRS = {"LinAlgError"}
