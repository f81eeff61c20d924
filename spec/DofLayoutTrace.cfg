SPECIFICATION TraceSpec
CONSTANTS NodeSet = {}
          Fam = "Lagrange"
          Deg = 1
          NComp = 1
CHECK_DEADLOCK FALSE
POSTCONDITION Finished
