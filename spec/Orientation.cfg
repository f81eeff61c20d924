SPECIFICATION Spec
CONSTANTS Common = {2, 5, 7}
 Apexes = {1, 3, 6, 9}
INVARIANTS AgreeFace AgreeEdges SignIsParity
CHECK_DEADLOCK FALSE
