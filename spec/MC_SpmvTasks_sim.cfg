CONSTANTS W <- EnvW
 Chunks <- EnvRows
 Broken = ""
 Coarse = TRUE
SPECIFICATION Spec
INVARIANTS Emit Exact NoLeak NoDeadUse
CHECK_DEADLOCK FALSE
