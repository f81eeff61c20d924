SPECIFICATION Spec
CONSTANTS MaxFields = 3 MaxDof = 4 Shifts = {0, 1, 5}
INVARIANTS Disjoint Covering ShiftNonNegative
CHECK_DEADLOCK FALSE
