SPECIFICATION Spec
CONSTANTS N = 2 K = 6 Edges = 3
CHECK_DEADLOCK FALSE
INVARIANTS OrderFree ChainCovers DoneConforming MonotoneCount
