SPECIFICATION Spec
CONSTANTS N = 2
 Corners <- Corners2
 Picks = {0, 2, 3}
 Moves = 3
 Splits = TRUE
INVARIANTS Balanced Symmetric Energy Pinned
CHECK_DEADLOCK FALSE
