SPECIFICATION Spec
CONSTANTS N = 2
 Corners <- Corners2
 Picks = {0, 3}
 Moves = 2
 Splits = FALSE
INVARIANTS Balanced Symmetric Energy Pinned
CHECK_DEADLOCK FALSE
