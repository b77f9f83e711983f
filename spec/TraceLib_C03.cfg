SPECIFICATION TraceSpec
CONSTANT Aspects = {"decode", "size", "src"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
