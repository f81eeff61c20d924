SPECIFICATION Spec
CONSTANTS NodeSet = {1, 2, 3, 4}
          Fam = "Lagrange"
          Deg = 2
          NComp = 2
INVARIANTS Disjoint NoGaps SharedExactly LocalSize TotalCount
CHECK_DEADLOCK FALSE
