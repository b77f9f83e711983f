SPECIFICATION TraceSpec
CONSTANT Aspects = {"shown"}
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
