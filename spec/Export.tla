------------------------------- MODULE Export -------------------------------
(* What an export holds.  A field lives on the cells of its support; the    *)
(* value of a vertex is the mean of the values the attached cells of the    *)
(* support have there, the value of a cell is the value at its centroid.    *)
(* Outside the support there is a filler.                                   *)
EXTENDS Field, Simplicial

Attached(cells, on, v) == {j \in DOMAIN cells : v \in RangeOf(cells[j]) /\ j \in on}
\* sum of the attached cells' values of one component (row: sequence of polynomials per cell)
VertexSum(cells, on, v, pt, Rows(_), c, i) ==
    LET f(j) == IF j \in Attached(cells, on, v) THEN Eval(Rows(j)[c][i], pt) ELSE 0 IN SumTo(f, Len(cells))
\* components, then directions
Flatten(rows) == [h \in 1..(Len(rows) * Len(rows[1])) |-> <<((h - 1) \div Len(rows[1])) + 1, ((h - 1) % Len(rows[1])) + 1>>]
\* a mesh written by dimension: the declared cells of that dimension, each once
Declared(decl, d) == {<<RangeOf(decl[j].nodes), decl[j].tag>> : j \in {j \in DOMAIN decl : Len(decl[j].nodes) = d + 1}}
=============================================================================
