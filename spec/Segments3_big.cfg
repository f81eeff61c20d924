CONSTANTS N = 2
 Flat = FALSE
SPECIFICATION Spec
INVARIANTS EmptyIffDisjoint3 GridPointsFound Unique EndsSound CrossSound
CHECK_DEADLOCK FALSE
