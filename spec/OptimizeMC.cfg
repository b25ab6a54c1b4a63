SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NRUN = 3
FS = {1, 2, 100000000, 100000001}
ERRS = {"LinAlgError"}
