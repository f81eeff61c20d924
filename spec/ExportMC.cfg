SPECIFICATION Spec
CONSTANTS NV = 4
 Values = {0, 1, 3}
 Filler = 7
INVARIANTS OrderFree Consistent Between Outside
CHECK_DEADLOCK FALSE
