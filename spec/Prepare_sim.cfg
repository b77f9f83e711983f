SPECIFICATION Spec
CONSTANT Runs = {1, 2, 3}
CONSTANT Fresh = TRUE
CONSTANT MayFail = TRUE
CHECK_DEADLOCK FALSE
