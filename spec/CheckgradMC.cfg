SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS SIZES <- Sizes
