SPECIFICATION SolveSpec
CONSTANTS N = 1
 Corners <- Corners1
 Picks = {0, 1, 2, 3, 4, 5}
 Moves = 0
 Splits = FALSE
INVARIANTS StrongIffUndisturbed DataAreValues FlowsAgree SeenWeakly
CHECK_DEADLOCK FALSE
