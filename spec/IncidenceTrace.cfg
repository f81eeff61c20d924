SPECIFICATION TraceSpec
CONSTANTS NodeSet = {}
          TagSet = {}
CHECK_DEADLOCK FALSE
POSTCONDITION Finished
