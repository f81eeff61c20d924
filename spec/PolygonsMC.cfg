SPECIFICATION Spec
CONSTANT N = 2
CHECK_DEADLOCK FALSE
INVARIANTS MembershipIsUnion WindingIsOrientation FanCovers AreaSplits ConvexKeepsTurning
