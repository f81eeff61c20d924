SPECIFICATION TraceSpec
POSTCONDITION Finished
CHECK_DEADLOCK FALSE
