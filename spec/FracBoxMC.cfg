SPECIFICATION Spec
CONSTANTS
 W = 2
 K = 2
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
