CONSTANTS NX = 3
 NY = 2
 MaxFractures = 2
 Fractures <- FracMC
SPECIFICATION Spec
INVARIANTS Fans SidesApart EndsMatch
CHECK_DEADLOCK FALSE
