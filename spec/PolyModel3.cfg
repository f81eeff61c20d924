SPECIFICATION Spec
CONSTANTS N = 3
 Corners <- Corners3
 Monos <- Monos3
INVARIANTS Additive RuleFree Monomials Divergence
CHECK_DEADLOCK FALSE
