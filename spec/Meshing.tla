------------------------------ MODULE Meshing ------------------------------
(* When is a simplicial mesh a subdivision of the domain it was made from? *)
(* Local, countable conditions on a list of nodes and triangles (or        *)
(* tetrahedra): the turned cells use each of their directed sides once,    *)
(* and the sides used in one sense only are the chains of consecutive      *)
(* nodes along the sides of the domain. MeshingMC checks that they leave   *)
(* no other possibility than an exact subdivision.                         *)
(* Node coordinates are integers, unit is the length of a lattice step of  *)
(* the domain's own coordinates, and tol the tolerated misplacement.       *)
EXTENDS Plane, SequencesExt

MaxN(a, b) == IF a > b THEN a ELSE b
AbsN(a) == IF a < 0 THEN -a ELSE a
\* --- triangles ------------------------------------------------------------------
Area2(P, t) == Cross2(P[t[1]], P[t[2]], P[t[3]])
Turned(P, t) == IF Area2(P, t) > 0 THEN <<t[1], t[2], t[3]>> ELSE <<t[1], t[3], t[2]>>
Around(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
NoFlat(P, T) == \A k \in DOMAIN T : Area2(P, T[k]) # 0
Directed(P, T) == UNION {Around(Turned(P, T[k])) : k \in DOMAIN T}
NoOverlap(T, D) == Cardinality(D) = 3 * Len(T)
Rim(D) == {e \in D : <<e[2], e[1]>> \notin D}
\* --- nodes along a segment of the domain (a, b in node coordinates) ----------------
Len1(a, b) == MaxN(AbsN(b[1] - a[1]), AbsN(b[2] - a[2]))
NearSeg(p, a, b, tol) ==
    /\ AbsN(Cross2(a, b, p)) <= tol * Len1(a, b)
    /\ Dot2(a, b, p) >= -tol * Len1(a, b)
    /\ Dot2(b, a, p) >= -tol * Len1(a, b)
At(p, a, tol) == AbsN(p[1] - a[1]) <= tol /\ AbsN(p[2] - a[2]) <= tol
NodeChain(P, a, b, tol) == SetToSortSeq({i \in DOMAIN P : NearSeg(P[i], a, b, tol)}, LAMBDA i, j : Dot2(a, b, P[i]) < Dot2(a, b, P[j]))
Steps(c) == {<<c[i], c[i + 1]>> : i \in 1..(Len(c) - 1)}
Back(S) == {<<e[2], e[1]>> : e \in S}
\* the chain reaches both ends and never stands still
Spans(P, c, a, b, tol) == Len(c) >= 2 /\ At(P[c[1]], a, tol) /\ At(P[c[Len(c)]], b, tol) /\ \A i \in 1..(Len(c) - 1) : ~At(P[c[i]], P[c[i + 1]], tol)
\* --- conditions -------------------------------------------------------------------
\* sides: sequence of [a, b] around the domain, ccw; pieces: set of <<tag, a, b>> inside
SideSteps(P, sides, tol) == UNION {Steps(NodeChain(P, sides[i][1], sides[i][2], tol)) : i \in DOMAIN sides}
Subdivides(P, T, sides, tol) ==
    LET D == Directed(P, T) IN
    /\ NoFlat(P, T)
    /\ NoOverlap(T, D)
    /\ Rim(D) = SideSteps(P, sides, tol)
    /\ \A i \in DOMAIN sides : Spans(P, NodeChain(P, sides[i][1], sides[i][2], tol), sides[i][1], sides[i][2], tol)
    /\ {i \in DOMAIN P : ~\E k \in DOMAIN T : i \in {T[k][1], T[k][2], T[k][3]}} = {}
\* every piece is made of edges of the mesh
Carries(P, D, a, b, tol) ==
    LET c == NodeChain(P, a, b, tol) IN Spans(P, c, a, b, tol) /\ \A e \in Steps(c) : e \in D \/ <<e[2], e[1]>> \in D
===========================================================================
