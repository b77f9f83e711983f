SPECIFICATION TraceSpec
CONSTANT Aspects = {"shown"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
