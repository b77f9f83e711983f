SPECIFICATION Spec
CONSTANT Runs = {1, 2, 3}
CONSTANT Fresh = TRUE
CONSTANT MayFail = TRUE
INVARIANTS Isolated NoLeftovers AllGone Undisturbed
PROPERTIES NobodyElses Terminates
CHECK_DEADLOCK FALSE
