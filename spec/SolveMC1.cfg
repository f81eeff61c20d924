SPECIFICATION SolveSpec
CONSTANTS N = 1
 Corners <- Corners1
 Picks = {0, 3}
 Moves = 0
 Splits = FALSE
INVARIANTS StrongIffUndisturbed DataAreValues FlowsAgree SeenWeakly
CHECK_DEADLOCK FALSE
