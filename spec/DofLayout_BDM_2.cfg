SPECIFICATION Spec
CONSTANTS NodeSet = {1, 2, 3, 4}
          Fam = "BDM"
          Deg = 2
          NComp = 2
INVARIANTS Disjoint NoGaps SharedExactly LocalSize TotalCount
CHECK_DEADLOCK FALSE
