------------------------------- MODULE GeomMC -------------------------------
(* A simplex whose vertices are renumbered step by step: its measure,       *)
(* diameter and outward normals do not change, the normals close, and the   *)
(* facet embedding composes with the map of the cell.                       *)
EXTENDS Geom
CONSTANTS N, Grid
VARIABLES V, first
Points == IF N = 1 THEN {<<x, y, z>> : x \in Grid, y \in Grid, z \in {0, 1}} ELSE {<<x, y, z>> : x \in Grid, y \in Grid, z \in {0, 2}}
Less(a, b) == \E i \in 1..3 : a[i] < b[i] /\ \A h \in 1..(i - 1) : a[h] = b[h]
Init == /\ V \in [1..(N + 1) -> Points] /\ \A j \in 1..N : Less(V[j], V[j + 1])
        /\ DetSq(V) # 0 /\ first = V
Renumber == \E i \in 1..N : V' = [V EXCEPT ![i] = V[i + 1], ![i + 1] = V[i]] /\ UNCHANGED first
Next == Renumber
Spec == Init /\ [][Next]_<<V, first>>
Facet(q, j) == [k \in 1..N |-> q[IF k < j THEN k ELSE k + 1]]
\* the adjugate of the Gram matrix times the transposed Jacobian
Adj(q) == LET G == Gram(q) IN
    CASE N = 1 -> <<Col3(q, 1)>>
      [] N = 2 -> << Minus3(Mul3(G[2][2], Col3(q, 1)), Mul3(G[1][2], Col3(q, 2))),
                     Minus3(Mul3(G[1][1], Col3(q, 2)), Mul3(G[1][2], Col3(q, 1))) >>
      [] N = 3 -> LET d == Dot3(Col3(q, 1), Cross3(Col3(q, 2), Col3(q, 3))) IN
                  << Mul3(d, Cross3(Col3(q, 2), Col3(q, 3))), Mul3(d, Cross3(Col3(q, 3), Col3(q, 1))), Mul3(d, Cross3(Col3(q, 1), Col3(q, 2))) >>
Invertible == IsScaledInverse(V, Adj(V))
\* measures do not depend on the numbering
Stable == DetSq(V) = DetSq(first) /\ DiamSq(V) = DiamSq(first)
\* the squared normal of a facet of a triangle or tetrahedron is a multiple of its squared area; normals are orthogonal and point out
Normals == \A j \in 1..(N + 1) :
    LET F == Facet(V, j) n == Outward(F, V[j]) IN
    /\ \A k \in 2..N : Dot3(n, Minus3(F[k], F[1])) = 0
    /\ Dot3(n, Minus3(F[1], V[j])) > 0
    /\ N = 2 => Dot3(n, Cross3(Col3(V, 1), Col3(V, 2))) = 0 /\ Dot3(n, n) = Square2(F) * Square2(V)
\* the normals (length proportional to the facet measure) of a cell add up to zero
Closed == LET g(j) == Outward(Facet(V, j), V[j]) IN Sum3(g, N + 1) = <<0, 0, 0>>
\* a renumbered facet keeps its normal
Numbering == \A j \in 1..(N + 1), i \in 1..(N - 1) :
    LET F == Facet(V, j) H == [F EXCEPT ![i] = F[i + 1], ![i + 1] = F[i]] IN Outward(H, V[j]) = Outward(F, V[j])
Embedding == \A j \in 1..(N + 1), lam \in Bary(N - 1, 3) :
    LET F == Facet(V, j) IN Blend(V, Lift(V, F, lam)) = Blend(F, lam)
Around == \A j \in 1..(N + 1) : Rest(V, Facet(V, j)) = V[j]
=============================================================================
