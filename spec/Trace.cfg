SPECIFICATION TraceSpec
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
