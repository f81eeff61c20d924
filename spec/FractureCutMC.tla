-------------------------- MODULE FractureCutMC ---------------------------
EXTENDS FractureCut
CONSTANT MaxFractures
FracMC(C) == {{f} : f \in C}
             \cup (IF MaxFractures >= 2 THEN {{f, g} : f \in C, g \in C} ELSE {})
===========================================================================
