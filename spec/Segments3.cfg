CONSTANTS N = 1
 Flat = FALSE
SPECIFICATION Spec
INVARIANTS EmptyIffDisjoint3 GridPointsFound Unique EndsSound CrossSound
CHECK_DEADLOCK FALSE
