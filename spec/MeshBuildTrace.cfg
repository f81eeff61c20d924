SPECIFICATION TraceSpec
CONSTANTS NodeSet = {}
          TagSet = {}
          MaxDeclared = 0
CHECK_DEADLOCK FALSE
POSTCONDITION Finished
