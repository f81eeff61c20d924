SPECIFICATION Spec
CONSTANTS NV = 5
 Values = {0, 1}
 Filler = 7
INVARIANTS OrderFree Consistent Between Outside
CHECK_DEADLOCK FALSE
