SPECIFICATION Spec
CONSTANTS
 W = 4
 MaxNodes = 7
 MaxDamage = 1
INVARIANT Inv
VIEW Seen
CHECK_DEADLOCK FALSE
