SPECIFICATION Spec
CONSTANTS
 Steps = 4
INVARIANT Inv
PROPERTY Monotone Parted
CHECK_DEADLOCK FALSE
