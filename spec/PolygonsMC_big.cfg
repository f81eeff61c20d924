SPECIFICATION Spec
CONSTANT N = 3
CHECK_DEADLOCK FALSE
INVARIANTS MembershipIsUnion WindingIsOrientation FanCovers AreaSplits ConvexKeepsTurning
