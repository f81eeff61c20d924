SPECIFICATION TraceSpec
CONSTANTS Common = {1}
 Apexes = {2}
 Fam = "Lagrange"
 Deg = 1
 NComp = 1
 NodeSet = {1}
CHECK_DEADLOCK FALSE
POSTCONDITION Finished
