SPECIFICATION Spec
CONSTANTS N = 3
 Corners <- Corners3
 Picks = {4}
 Moves = 1
 Splits = FALSE
INVARIANTS Balanced Symmetric Energy Pinned
CHECK_DEADLOCK FALSE
