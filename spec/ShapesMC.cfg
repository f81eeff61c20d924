SPECIFICATION Spec
CONSTANTS
 Tags = {0, 1}
 Places = {0, 1}
 Depth = 2
INVARIANT Inv
PROPERTY AssignedEqual
CHECK_DEADLOCK FALSE
