SPECIFICATION Spec
CONSTANTS N = 3 K = 6 Edges = 2
CHECK_DEADLOCK FALSE
INVARIANTS OrderFree ChainCovers DoneConforming MonotoneCount
