SPECIFICATION SolveSpec
CONSTANTS N = 3
 Corners <- Corners3
 Picks = {0}
 Moves = 0
 Splits = FALSE
INVARIANTS StrongIffUndisturbed DataAreValues FlowsAgree
CHECK_DEADLOCK FALSE
