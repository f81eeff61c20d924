SPECIFICATION Spec
CONSTANTS N = 1
 Corners <- Corners1
 Monos <- Monos1
INVARIANTS Additive RuleFree Monomials Divergence ProdOK
CHECK_DEADLOCK FALSE
