-------------------------------- MODULE Geom --------------------------------
(* Integer geometry of simplices: the affine map of a cell, its Jacobian,   *)
(* pseudo-inverse and measure, outward facet normals, the embedding of a    *)
(* facet into a cell, diameters and centroids.                              *)
EXTENDS Poly

Sum3(F(_), n) == [i \in 1..3 |-> LET f[k \in 0..n] == IF k = 0 THEN 0 ELSE f[k - 1] + F(k)[i] IN f[n]]
Mul3(c, a) == <<c * a[1], c * a[2], c * a[3]>>
\* the point with barycentric numerators lam, times their common denominator
Blend(V, lam) == LET F(k) == Mul3(lam[k], V[k]) IN Sum3(F, Len(V))
Col3(V, j) == Minus3(V[j + 1], V[1])                       \* column j of the Jacobian
Jacobian(V) == [i \in 1..3 |-> [j \in 1..(Len(V) - 1) |-> Col3(V, j)[i]]]
Gram(V) == [i \in 1..(Len(V) - 1) |-> [j \in 1..(Len(V) - 1) |-> Dot3(Col3(V, i), Col3(V, j))]]
\* squared determinant of the map: (n! times the measure) squared
DetSq(V) == CASE Len(V) = 1 -> 1 [] Len(V) = 4 -> Weight(V) * Weight(V) [] OTHER -> Square2(V)
\* Q (n rows of 3 integers) is DetSq times the pseudo-inverse: Q J = DetSq I with rows in the span of the columns
IsScaledInverse(V, Q) ==
    LET n == Len(V) - 1 IN
    /\ \A i, j \in 1..n : Dot3(Q[i], Col3(V, j)) = (IF i = j THEN DetSq(V) ELSE 0)
    /\ n = 2 => \A i \in 1..2 : Dot3(Q[i], Cross3(Col3(V, 1), Col3(V, 2))) = 0
    /\ n = 1 => Cross3(Q[1], Col3(V, 1)) = <<0, 0, 0>>
\* an outward normal of facet F of the cell with remaining vertex O, inside the plane or line of the cell
Away(N, F, O) == IF Dot3(N, Minus3(F[1], O)) > 0 THEN N ELSE Mul3(-1, N)
Outward(F, O) ==
    CASE Len(F) = 3 -> Away(Cross3(Minus3(F[2], F[1]), Minus3(F[3], F[1])), F, O)
      [] Len(F) = 2 -> LET v == Minus3(F[2], F[1]) IN Away(Cross3(v, Cross3(v, Minus3(O, F[1]))), F, O)
      [] Len(F) = 1 -> Minus3(F[1], O)
Rest(V, F) == CHOOSE p \in {V[j] : j \in DOMAIN V} : \A k \in DOMAIN F : F[k] # p
\* barycentric numerators of a facet point with respect to the cell
Lift(V, F, lam) == [j \in DOMAIN V |-> IF \E k \in DOMAIN F : F[k] = V[j] THEN lam[CHOOSE k \in DOMAIN F : F[k] = V[j]] ELSE 0]
Distance2(a, b) == LET d == Minus3(a, b) IN Dot3(d, d)
DiamSq(V) == LET S == {Distance2(V[i], V[j]) : i, j \in DOMAIN V} IN CHOOSE s \in S : \A t \in S : t <= s
\* Root(100 s) - a length in tenths, rounded down
Tenths(s) == ISqrt(100 * s)
=============================================================================
