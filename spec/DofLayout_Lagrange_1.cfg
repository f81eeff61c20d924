SPECIFICATION Spec
CONSTANTS NodeSet = {1, 2, 3, 4}
          Fam = "Lagrange"
          Deg = 1
          NComp = 1
INVARIANTS Disjoint NoGaps SharedExactly LocalSize TotalCount
CHECK_DEADLOCK FALSE
