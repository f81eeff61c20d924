SPECIFICATION Spec
CONSTANTS
 Steps = 6
INVARIANT Inv
PROPERTY Monotone Parted
CHECK_DEADLOCK FALSE
