SPECIFICATION Spec
CONSTANTS
 W = 2
 K = 3
 Listed = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
