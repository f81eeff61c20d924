--------------------------- MODULE PolygonsTrace ---------------------------
(* Verdicts on observed answers about polygons; coordinates are those of   *)
(* the polygon's own integer frame (third coordinate: height above it).    *)
EXTENDS Polygons, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)

Unit == 10000
Coarse == 100
\* obs (times Unit) is the planar point num/den
NearPlanar(o, num, den) == PAbs(o[1] * den - Unit * num[1]) <= 2 * den /\ PAbs(o[2] * den - Unit * num[2]) <= 2 * den /\ PAbs(o[3]) <= 2
NearP3(o, p) == \A i \in 1..3 : PAbs(o[i] - Unit * p[i]) <= 2
\* --- turns and area vector ----------------------------------------------------
ConvexVerdict(e) == IF e.answer = (Len(e.h) < 4 \/ StrictlyConvex(e.h)) THEN {} ELSE {"convex"}

V3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
X3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
D3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
RECURSIVE AreaVec(_, _)
AreaVec(ps, n) == IF n = 0 THEN <<0, 0, 0>> ELSE LET c == X3(ps[n], ps[(n % Len(ps)) + 1])
                                                     r == AreaVec(ps, n - 1) IN <<c[1] + r[1], c[2] + r[2], c[3] + r[3]>>
\* n is recorded in units of 1/1000
NormalVerdict(e) ==
    LET a == AreaVec(e.ps, Len(e.ps))
        c == X3(e.n, a) IN
    {v \in {"unit-length", "orthogonal", "right-handed"} :
       \/ v = "unit-length" /\ PAbs(D3(e.n, e.n) - 1000000) > 4000
       \/ v = "orthogonal" /\ \E i \in 1..3 : PAbs(c[i]) > 2 * (PAbs(a[1]) + PAbs(a[2]) + PAbs(a[3]))
       \/ v = "right-handed" /\ D3(e.n, a) <= 0}

\* --- triangulations (coordinates in units of 1/Coarse) ------------------------
TArea2(t) == PAbs(Cr(t[1], t[2], t[3]))
NearVertex(p, v) == PAbs(p[1] - Coarse * v[1]) <= 1 /\ PAbs(p[2] - Coarse * v[2]) <= 1 /\ PAbs(p[3]) <= 1
HasVertex(t, v) == \E i \in 1..3 : NearVertex(t[i], v)
TriVerdict(e) ==
    LET h == e.h
        ts == e.tris
        convex == Len(h) < 4 \/ StrictlyConvex(h)
        big == ScalePoly(3 * Coarse, h) IN
    {v \in {"covers-area", "inside", "fan", "uses-vertices"} :
       \/ v = "covers-area" /\ PAbs(SumTo([i \in DOMAIN ts |-> TArea2(ts[i])], Len(ts)) - Coarse * Coarse * PAbs(Area2(h))) > 12 * Coarse * (Len(ts) + 1)
       \/ v = "inside" /\ \E i \in DOMAIN ts : ~InPoly(<<ts[i][1][1] + ts[i][2][1] + ts[i][3][1], ts[i][1][2] + ts[i][2][2] + ts[i][3][2]>>, big)
       \/ v = "fan" /\ convex /\ ~(Len(ts) = Len(h) /\ \A i \in DOMAIN h : \E k \in DOMAIN ts : HasVertex(ts[k], h[i]) /\ HasVertex(ts[k], Nxt(h, i)))
       \/ v = "uses-vertices" /\ ~convex /\ ~(\A k \in DOMAIN ts : \A j \in 1..3 : \E i \in DOMAIN h : NearVertex(ts[k][j], h[i]))}

\* --- membership ---------------------------------------------------------------
InAtHeight(p, h) == p[3] = 0 /\ InPoly(Flat2(p), h)
PointsVerdict(e) ==
    LET idx == SelectSeq([i \in 1..Len(e.qs) |-> i], LAMBDA i : InAtHeight(e.qs[i], e.h)) IN
    {v \in {"mask", "listed-points", "single"} :
       \/ v = "mask" /\ e.mask # [i \in DOMAIN e.qs |-> InAtHeight(e.qs[i], e.h)]
       \/ v = "listed-points" /\ ~(Len(e.pts) = Len(idx) /\ \A i \in DOMAIN idx : NearP3(e.pts[i], e.qs[idx[i]]))
       \/ v = "single" /\ e.single # InAtHeight(e.qs[1], e.h)}

\* --- segments -------------------------------------------------------------------
Coplanar(p, q) == p[3] = 0 /\ q[3] = 0
\* sides crossed at one point by the planar segment: rational p + (tn/td) (q - p)
Side(p, q, a, b) ==
    LET d == Cr(<<0, 0>>, <<q[1] - p[1], q[2] - p[2]>>, <<b[1] - a[1], b[2] - a[2]>>)
        t == Cr(<<0, 0>>, <<a[1] - p[1], a[2] - p[2]>>, <<b[1] - a[1], b[2] - a[2]>>) IN <<t * Sgn(d), PAbs(d)>>
SidePoint(p, q, tn, td) == <<td * p[1] + tn * (q[1] - p[1]), td * p[2] + tn * (q[2] - p[2])>>
CrossedSides(p, q, h) == {i \in DOMAIN h : Side(p, q, h[i], Nxt(h, i))[2] # 0 /\ SidesMeet(p, q, h[i], Nxt(h, i))}
RunsAlong(p, q, h) == \E i \in DOMAIN h : Side(p, q, h[i], Nxt(h, i))[2] = 0 /\ SidesMeet(p, q, h[i], Nxt(h, i))
\* coarse soundness of a reported point
OnSegmentCoarse(o, p, q) ==
    LET x == o[1] \div Coarse
        y == o[2] \div Coarse
        P == <<Coarse * p[1], Coarse * p[2]>>
        Q == <<Coarse * q[1], Coarse * q[2]>> IN
      /\ PAbs(o[3]) <= 2
      /\ PAbs(Cr(P, Q, <<x, y>>)) <= 2 * (PAbs(Q[1] - P[1]) + PAbs(Q[2] - P[2]))
      /\ Between(x, P[1] - 2, Q[1] + 2) \/ Between(x, P[1] + 2, Q[1] - 2)
      /\ Between(y, P[2] - 2, Q[2] + 2) \/ Between(y, P[2] + 2, Q[2] - 2)
InPolyCoarse(o, h) == \E dx, dy \in {-2, 0, 2} : InPoly(<<(o[1] \div Coarse) + dx, (o[2] \div Coarse) + dy>>, ScalePoly(Coarse, h))
PlanarVerdict(h, p, q, pts) ==
    LET cs == CrossedSides(p, q, h)
        convex == StrictlyConvex(h)
        R(i) == Side(p, q, h[i], Nxt(h, i))
        outside == ~InPoly(p, h) /\ ~InPoly(q, h) IN
    {v \in {"only-common-points", "at-most-two", "boundary-crossings", "nothing-else"} :
       \/ v = "only-common-points" /\ \E i \in DOMAIN pts : ~(OnSegmentCoarse(pts[i], p, q) /\ InPolyCoarse(pts[i], h))
       \/ v = "at-most-two" /\ Len(pts) > 2
       \/ v = "boundary-crossings" /\ convex /\ ~RunsAlong(p, q, h) /\
            \E i \in cs : ~\E k \in DOMAIN pts : NearPlanar(pts[k], SidePoint(p, q, R(i)[1], R(i)[2]), R(i)[2])
       \/ v = "nothing-else" /\ convex /\ ~RunsAlong(p, q, h) /\ outside /\
            \E k \in DOMAIN pts : ~\E i \in cs : NearPlanar(pts[k], SidePoint(p, q, R(i)[1], R(i)[2]), R(i)[2])}
OneLine(h, p, q, pts) ==
    LET meet == SegmentMeetsPoly(p, q, h) IN
    IF meet # (pts # <<>>) THEN {"none-iff-disjoint"}
    ELSE IF ~meet THEN {}
    ELSE IF Coplanar(p, q) THEN PlanarVerdict(h, p, q, pts)
    ELSE IF Len(pts) = 1 /\ NearPlanar(pts[1], XNumP(p, q), XDenP(p, q)) THEN {} ELSE {"the-common-point"}
LineVerdict(e) == OneLine(e.h, e.p, e.q, e.pts)
LinesVerdict(e) ==
    LET meets == [i \in DOMAIN e.lines |-> SegmentMeetsPoly(e.lines[i][1], e.lines[i][2], e.h)]
        idx == SelectSeq([i \in 1..Len(e.lines) |-> i], LAMBDA i : meets[i]) IN
    IF e.mask # meets THEN {"mask"}
    ELSE IF Len(e.outs) # Len(idx) THEN {"one-answer-per-meeting-line"}
    ELSE UNION {OneLine(e.h, e.lines[idx[i]][1], e.lines[idx[i]][2], e.outs[i]) : i \in DOMAIN idx}

Scoped(e) == ~("h" \in DOMAIN e) \/ (Simple(e.h) /\ (e.free \/ StrictlyConvex(e.h) \/ DelaunaySides(e.h)))
Verdict(e) ==
    IF ~Scoped(e) THEN {"harness-input-out-of-scope"}
    ELSE IF e.err # "" THEN {"answers"}
    ELSE CASE e.ev = "convex" -> ConvexVerdict(e)
           [] e.ev = "normal" -> NormalVerdict(e)
           [] e.ev = "triangulation" -> TriVerdict(e)
           [] e.ev = "points" -> PointsVerdict(e)
           [] e.ev \in {"line", "tri"} -> LineVerdict(e)
           [] e.ev \in {"lines", "tris"} -> LinesVerdict(e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
