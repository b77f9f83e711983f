SPECIFICATION Spec
CONSTANT Runs = {1, 2}
CONSTANT Fresh = TRUE
CONSTANT MayFail = FALSE
INVARIANTS Isolated NoLeftovers AllGone Undisturbed
PROPERTIES NobodyElses Terminates
CHECK_DEADLOCK FALSE
