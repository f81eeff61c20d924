----------------------------- MODULE Polygons ------------------------------
(* Exact geometry of simple polygons with integer vertices: membership of  *)
(* rational points, turns, areas, and segments against the polygon's plane. *)
EXTENDS Integers, Sequences, FiniteSets

PAbs(x) == IF x < 0 THEN -x ELSE x
Cr(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Nxt(h, i) == h[(i % Len(h)) + 1]
Between(x, u, v) == (u <= x /\ x <= v) \/ (v <= x /\ x <= u)
OnSide(p, a, b) == Cr(a, b, p) = 0 /\ Between(p[1], a[1], b[1]) /\ Between(p[2], a[2], b[2])
OnBoundary(p, h) == \E i \in DOMAIN h : OnSide(p, h[i], Nxt(h, i))
\* signed crossings of the ray to the right of p (half-open rule)
Up(p, a, b) == a[2] <= p[2] /\ p[2] < b[2] /\ Cr(a, b, p) > 0
Dn(p, a, b) == b[2] <= p[2] /\ p[2] < a[2] /\ Cr(a, b, p) < 0
Winding(p, h) == Cardinality({i \in DOMAIN h : Up(p, h[i], Nxt(h, i))}) - Cardinality({i \in DOMAIN h : Dn(p, h[i], Nxt(h, i))})
InPoly(p, h) == OnBoundary(p, h) \/ Winding(p, h) # 0
ScalePoly(k, h) == [i \in DOMAIN h |-> <<k * h[i][1], k * h[i][2]>>]
\* membership of the rational point num/den
InPolyRat(num, den, h) == InPoly(num, ScalePoly(den, h))

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Area2(h) == SumTo([i \in DOMAIN h |-> h[i][1] * Nxt(h, i)[2] - h[i][2] * Nxt(h, i)[1]], Len(h))
Turn(h, i) == Cr(h[i], Nxt(h, i), h[((i + 1) % Len(h)) + 1])
StrictlyConvex(h) == (\A i \in DOMAIN h : Turn(h, i) > 0) \/ (\A i \in DOMAIN h : Turn(h, i) < 0)

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* closed planar segments meet
SidesMeet(p, q, a, b) ==
    \/ OnSide(p, a, b) \/ OnSide(q, a, b) \/ OnSide(a, p, q) \/ OnSide(b, p, q)
    \/ (Sgn(Cr(p, q, a)) * Sgn(Cr(p, q, b)) < 0 /\ Sgn(Cr(a, b, p)) * Sgn(Cr(a, b, q)) < 0)
Simple(h) ==
    /\ Cardinality({h[i] : i \in DOMAIN h}) = Len(h)
    /\ \A i, j \in DOMAIN h : i < j =>
         IF Nxt(h, i) = h[j] THEN ~OnSide(Nxt(h, j), h[i], h[j]) /\ ~OnSide(h[i], h[j], Nxt(h, j))
         ELSE IF Nxt(h, j) = h[i] THEN ~OnSide(h[j], h[i], Nxt(h, i)) /\ ~OnSide(Nxt(h, i), h[j], h[i])
         ELSE ~SidesMeet(h[i], Nxt(h, i), h[j], Nxt(h, j))
\* d strictly outside the circle through a, b, c
InCircle(a, b, c, d) ==
    LET X(p) == p[1] - d[1]
        Y(p) == p[2] - d[2]
        Q(p) == X(p) * X(p) + Y(p) * Y(p) IN
      (X(a) * (Y(b) * Q(c) - Q(b) * Y(c)) - Y(a) * (X(b) * Q(c) - Q(b) * X(c)) + Q(a) * (X(b) * Y(c) - Y(b) * X(c))) * Sgn(Cr(a, b, c))
\* every side is in every Delaunay triangulation of the vertices
DelaunaySides(h) == \A i \in DOMAIN h : \A j, k \in DOMAIN h :
    (Cr(h[i], Nxt(h, i), h[j]) > 0 /\ Cr(h[i], Nxt(h, i), h[k]) < 0) => InCircle(h[i], Nxt(h, i), h[j], h[k]) < 0

\* --- a segment with heights z above the polygon's plane -----------------------
\* p, q are <<x, y, z>>
Transversal(p, q) == p[3] * q[3] <= 0 /\ ~(p[3] = 0 /\ q[3] = 0)
XNumP(p, q) == <<p[1] * PAbs(q[3]) + q[1] * PAbs(p[3]), p[2] * PAbs(q[3]) + q[2] * PAbs(p[3])>>
XDenP(p, q) == PAbs(p[3]) + PAbs(q[3])
Flat2(p) == <<p[1], p[2]>>
SegmentMeetsPoly(p, q, h) ==
    IF p[3] = 0 /\ q[3] = 0
    THEN InPoly(Flat2(p), h) \/ InPoly(Flat2(q), h) \/ \E i \in DOMAIN h : SidesMeet(Flat2(p), Flat2(q), h[i], Nxt(h, i))
    ELSE Transversal(p, q) /\ InPolyRat(XNumP(p, q), XDenP(p, q), h)
===========================================================================
