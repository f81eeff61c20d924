------------------------------- MODULE Field -------------------------------
(* Discrete fields.  A space of family F and order k on a simplicial mesh   *)
(* contains certain polynomial fields; projecting such a field gives it     *)
(* back, projecting any other polynomial keeps all its moments against the  *)
(* space; errors and norms are the exact integrals.                         *)
(* A field is a sequence of components; a component is a sequence with one  *)
(* polynomial (scalar families) or one per direction (vector families).     *)
EXTENDS Poly

Scalar(f) == f = "Lagrange"
\* multiplication of a polynomial with a coordinate
X(i, p) == Times(Coord(i), p)
RowInSpace(family, k, dim, row) ==
    CASE family = "Lagrange" -> DegMost(row[1], k)
      [] dim = 1 /\ family # "Lagrange" -> DegMost(row[1], IF family \in {"RT", "N1E"} THEN k - 1 ELSE k)
      [] family \in {"BDM", "N2E"} -> \A i \in 1..dim : DegMost(row[i], k)
      [] family = "RT" ->       \* P_{k-1}^n + x * homogeneous P_{k-1}
            /\ \A i \in 1..dim : DegMost(row[i], k)
            /\ \A i, j \in 1..dim : EqualPoly(X(i, Part(row[j], k)), X(j, Part(row[i], k)))
      [] family = "N1E" ->      \* P_{k-1}^n + { p homogeneous P_k^n : x . p = 0 }
            /\ \A i \in 1..dim : DegMost(row[i], k)
            /\ Support(IF dim = 2 THEN Plus(X(1, Part(row[1], k)), X(2, Part(row[2], k)))
                       ELSE Plus(X(1, Part(row[1], k)), Plus(X(2, Part(row[2], k)), X(3, Part(row[3], k))))) = {}
InSpace(family, k, dim, rows) == \A c \in DOMAIN rows : RowInSpace(family, k, dim, rows[c])
DegreeOf(rows, k) == \A c \in DOMAIN rows : \A i \in DOMAIN rows[c] : DegMost(rows[c][i], k)

DivRow(row, dim) == IF dim = 1 THEN Diff(row[1], 1)
                    ELSE IF dim = 2 THEN Plus(Diff(row[1], 1), Diff(row[2], 2))
                    ELSE Plus(Diff(row[1], 1), Plus(Diff(row[2], 2), Diff(row[3], 3)))
MinusRows(g, h) == [c \in DOMAIN g |-> [i \in DOMAIN g[c] |-> Plus(g[c][i], Scale(-1, h[c][i]))]]

\* sum over components and directions of the squares / products, as point functions
SqAt(rows, P) == LET f(c) == LET h(i) == LET v == Eval(rows[c][i], P) IN Md(v * v) IN SumTo(h, Len(rows[c]))
                 IN SumTo(f, Len(rows))
ProdAt(g, h, P) == LET f(c) == LET r(i) == Md(Eval(g[c][i], P) * Eval(h[c][i], P)) IN SumTo(r, Len(g[c]))
                   IN SumTo(f, Len(g))
OverCells(cells, s, F(_)) == LET f(j) == IntF(cells[j], s, F) IN SumTo(f, Len(cells))
NormSq(cells, s, rows) == OverCells(cells, s, LAMBDA P : SqAt(rows, P))
Pairing(cells, s, g, h) == OverCells(cells, s, LAMBDA P : ProdAt(g, h, P))
=============================================================================
