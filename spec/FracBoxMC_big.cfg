SPECIFICATION Spec
CONSTANTS
 W = 2
 K = 3
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
