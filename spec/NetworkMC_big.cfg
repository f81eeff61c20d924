SPECIFICATION Spec
CONSTANTS
 W = 2
 K = 3
 Listed = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
