SPECIFICATION TraceSpec
CONSTANT Aspects = {"damage"}
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
