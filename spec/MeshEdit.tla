------------------------------ MODULE MeshEdit ------------------------------
(* A mesh that grows and is rewired after loading.                          *)
(* State: cells -- one record [d, id, t, x, s] per cell, the cell with       *)
(* identifier i at position i + 1 (d dimension, t physical tag or -1, x node *)
(* tags, s[k + 1] identifiers of its faces of dimension k); pts -- one place *)
(* per node tag; held -- copies of cells that are not (yet) in the mesh.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CellAt(C, i) == C[i + 1]
NextId(C) == Len(C)
NextNode(P) == Len(P)

\* ---- growing -----------------------------------------------------------
AddPoints(P, q) == P \o q
\* a batch is taken only when every identifier is still unused
Fresh(C, B) == \A k \in DOMAIN B : B[k].id >= NextId(C)
AddCells(C, B) == IF Fresh(C, B) THEN C \o B ELSE C
\* a copy of cell c under a new identifier and tag
CopyAs(c, i, t) == [c EXCEPT !.id = i, !.t = t, !.s[c.d + 1] = <<i>>]
\* every copied vertex gets a node of its own at the same place
OwnNodes(P, B) == [k \in DOMAIN B |-> [B[k] EXCEPT !.x = <<NextNode(P) + k - 1>>]]
OwnPlaces(P, B) == P \o [k \in DOMAIN B |-> P[B[k].x[1] + 1]]

\* ---- rewiring ----------------------------------------------------------
First(q, v) == LET H == {k \in DOMAIN q : q[k] = v} IN IF H = {} THEN 0 ELSE CHOOSE k \in H : \A j \in H : k <= j
\* M: set of <<old, new>> with every old at most once
Sub(q, M) == [k \in DOMAIN q |-> IF \E m \in M : m[1] = q[k] THEN (CHOOSE m \in M : m[1] = q[k])[2] ELSE q[k]]
RangeOf(q) == {q[k] : k \in DOMAIN q}
\* R[k + 1]: pairs <<old, new>> of faces of dimension k below the dimension of the cells of S
Reroute(C, S, R) ==
    [k \in DOMAIN C |->
        IF (k - 1) \notin S THEN C[k]
        ELSE LET c == C[k]
                 N == {<<CellAt(C, m[1]).x[1], CellAt(C, m[2]).x[1]>> : m \in {m \in RangeOf(R[1]) : m[1] \in RangeOf(c.s[1])}}
             IN [c EXCEPT !.x = Sub(c.x, N),
                          !.s = [j \in DOMAIN c.s |-> IF j <= Len(R) /\ j <= c.d THEN Sub(c.s[j], RangeOf(R[j])) ELSE c.s[j]]]]
SameDimension(C, S) == \A a, b \in S : CellAt(C, a).d = CellAt(C, b).d
MapFaces(C, k, i, M) == [C EXCEPT ![i + 1].s[k + 1] = Sub(C[i + 1].s[k + 1], M)]
MapNodes(C, i, M) == [C EXCEPT ![i + 1].x = Sub(C[i + 1].x, M)]

\* ---- queries -----------------------------------------------------------
FaceIndex(c, k, i) == First(c.s[k + 1], i) - 1
NodeIndex(c, i) == First(c.x, i) - 1
Links(C, d, e) == UNION {{<<d, C[k].id, e, i>> : i \in RangeOf(C[k].s[e + 1])} : k \in {k \in DOMAIN C : C[k].d = d}}

\* ---- exchanging a node of a graph: its predecessors move to the new one ----
Exchange(G, V, o, n) ==
    IF o \notin V THEN <<G, V>>
    ELSE LET P == {g[1] : g \in {g \in G : g[2] = o}}
         IN <<{g \in G : g[1] # o /\ g[2] # o} \cup {<<p, n>> : p \in P \ {o}}, (V \ {o}) \cup (IF P \ {o} = {} THEN {} ELSE {n})>>
RECURSIVE ExchangeAll(_, _, _)
ExchangeAll(G, V, q) == IF q = <<>> THEN <<G, V>> ELSE LET r == Exchange(G, V, q[1][1], q[1][2]) IN ExchangeAll(r[1], r[2], Tail(q))

\* ---- what a well-formed mesh satisfies ----------------------------------
IdsArePositions(C) == \A k \in DOMAIN C : C[k].id = k - 1 /\ C[k].s[C[k].d + 1] = <<k - 1>>
NodesMatch(C) == \A k \in DOMAIN C : C[k].d > 0 => \A j \in DOMAIN C[k].x : CellAt(C, C[k].s[1][j]).x[1] = C[k].x[j]
FacesMatch(C) == \A k \in DOMAIN C : \A j \in 1..C[k].d : \A i \in RangeOf(C[k].s[j]) :
                    CellAt(C, i).d = j - 1 /\ RangeOf(CellAt(C, i).x) \subseteq RangeOf(C[k].x)
PlacesOf(C, P, i) == [j \in DOMAIN CellAt(C, i).x |-> P[CellAt(C, i).x[j] + 1]]
=============================================================================
