---------------------------- MODULE PolygonsMC -----------------------------
(* The membership rule against the definition by triangulation: a simple   *)
(* quadrilateral is the union of the two triangles of an inner diagonal.   *)
EXTENDS Polygons, TLC
CONSTANT N
Grid == (0..N) \X (0..N)
VARIABLE h
Init == h \in {<<a, b, c, d>> : a, b, c, d \in Grid}
Next == UNCHANGED h
Spec == Init /\ [][Next]_h
InTri(p, a, b, c) ==
    LET s == Sgn(Cr(a, b, c)) IN s * Cr(a, b, p) >= 0 /\ s * Cr(b, c, p) >= 0 /\ s * Cr(c, a, p) >= 0
\* split along a diagonal whose triangles have the orientation of the polygon
Split(g) == LET s == Sgn(Area2(g)) IN
   IF Sgn(Cr(g[1], g[2], g[3])) = s /\ Sgn(Cr(g[1], g[3], g[4])) = s THEN {<<g[1], g[2], g[3]>>, <<g[1], g[3], g[4]>>}
   ELSE {<<g[2], g[3], g[4]>>, <<g[2], g[4], g[1]>>}
Proper == Simple(h)
\* half-integer points included
Points2 == (-1..(2 * N + 1)) \X (-1..(2 * N + 1))
MembershipIsUnion == Proper => LET g == ScalePoly(2, h) IN
    \A p \in Points2 : InPoly(p, g) <=> \E t \in Split(g) : InTri(p, t[1], t[2], t[3])
WindingIsOrientation == Proper => \A p \in Points2 : LET g == ScalePoly(2, h) IN
    (InPoly(p, g) /\ ~OnBoundary(p, g)) => Winding(p, g) = Sgn(Area2(g))
\* the fan from the mean of the vertices covers a strictly convex polygon
Mean4 == <<h[1][1] + h[2][1] + h[3][1] + h[4][1], h[1][2] + h[2][2] + h[3][2] + h[4][2]>>
FanCovers == (Proper /\ StrictlyConvex(h)) => LET g == ScalePoly(4, h) IN
    \A p \in Points2 : InPoly(<<2 * p[1], 2 * p[2]>>, g) <=> \E i \in 1..4 : InTri(<<2 * p[1], 2 * p[2]>>, Mean4, g[i], Nxt(g, i))
AreaSplits == Proper => Area2(h) = Cr(h[1], h[2], h[3]) + Cr(h[1], h[3], h[4])
ConvexKeepsTurning == (Proper /\ StrictlyConvex(h)) => \A i \in 1..4 : Sgn(Turn(h, i)) = Sgn(Area2(h))
===========================================================================
