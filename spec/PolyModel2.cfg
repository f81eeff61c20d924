SPECIFICATION Spec
CONSTANTS N = 2
 Corners <- Corners2
 Monos <- Monos2
INVARIANTS Additive RuleFree Monomials Divergence
CHECK_DEADLOCK FALSE
