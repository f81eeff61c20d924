CONSTANTS N = 3
 Flat = TRUE
SPECIFICATION Spec
INVARIANTS EmptyIffDisjoint GridPointsFound Unique EndsSound CrossSound
CHECK_DEADLOCK FALSE
