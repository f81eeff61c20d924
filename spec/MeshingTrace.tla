---------------------------- MODULE MeshingTrace ----------------------------
(* Verdicts on meshes made from domains: exact subdivision, pieces carried *)
(* by edges of the mesh, tags, refinement and target sizes.                *)
EXTENDS FracBox, Network, Meshing, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
Tol == 2

At2(x, p) == <<x.unit * p[1], x.unit * p[2]>>
Pair(q) == LET p == CHOOSE p \in q : TRUE r == CHOOSE r \in q : r # p IN <<p, r>>
Cells(T) == [k \in DOMAIN T |-> <<T[k][1], T[k][2], T[k][3]>>]
Und(S) == {{e[1], e[2]} : e \in S}
Tagged(E, f) == {{E[k][1], E[k][2]} : k \in {k \in DOMAIN E : E[k][3] = f}}
TagList(E, f) == Cardinality({k \in DOMAIN E : E[k][3] = f})
Len2(p) == p[1] * p[1] + p[2] * p[2]
Pow(b, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN b ELSE IF n = 2 THEN b * b ELSE b * b * b
\* number of cells a refinement makes of one
Growth(x, d) == Len(x.cells) = x.base * Pow(Pow(2, d), x.ref)
\* --- a box, with fractures or without --------------------------------------------
Ccw(x) == Cross2(P2(x.box[1]), P2(x.box[2]), P2(x.box[3])) > 0
Around2(x) == [i \in DOMAIN x.box |-> IF Ccw(x) THEN <<At2(x, Sides(x)[i][1]), At2(x, Sides(x)[i][2])>> ELSE <<At2(x, Sides(x)[i][2]), At2(x, Sides(x)[i][1])>>]
PieceChain(x, q) == LET e == Pair(q[2]) IN NodeChain(x.pts, At2(x, e[1]), At2(x, e[2]), Tol)
SpansPiece(x, q) == LET e == Pair(q[2]) IN Spans(x.pts, PieceChain(x, q), At2(x, e[1]), At2(x, e[2]), Tol)
\* steps of an unrefined chain are about as long as asked for
GoodSize(x, q) == LET e == Pair(q[2])
                      c == PieceChain(x, q)
                      len2 == Len2(Sub(x.pts[c[1]], x.pts[c[2]]))
                      want == x.lc \div Pow(2, x.ref) IN
    \* no step longer than 3/2 of the target; no more steps than twice those needed
    /\ \A i \in 1..(Len(c) - 1) : Len2(Sub(x.pts[c[i]], x.pts[c[i + 1]])) * 4 <= 9 * (want + 1) * (want + 1)
    /\ LET whole == Len2(Sub(x.pts[c[1]], x.pts[c[Len(c)]]))
           n == (Len(c) - 1) \div Pow(2, x.ref) IN n = 1 \/ (n - 1) * (n - 1) * (x.lc \div 2) * (x.lc \div 2) <= whole
Close(p, q) == AbsN(p[1] - q[1]) <= Tol /\ AbsN(p[2] - q[2]) <= Tol
\* the plain mesher also tags the corners of a box with the tag of a side
CornerTags(x, p) == IF x.via = "cm" /\ \E i \in DOMAIN x.box : x.box[i] = p THEN {x.sidetags[i] : i \in SidesAt(x, p)} ELSE {}
AreaVerdict(x) ==
    LET P == x.pts
        T == Cells(x.cells)
        S == SidePieces(x)
        F == FracPieces(x)
        D == Directed(P, T)
        ends == UNION {q[2] : q \in S \cup F}
        steps == [q \in S \cup F |-> Steps(PieceChain(x, q))]
        sideSteps(f) == UNION {Und(steps[q]) : q \in {q \in S : q[1] = f}}
        lineSteps == UNION {Und(steps[q]) : q \in F} IN
    {n \in {"cells-tagged", "subdivides", "pieces-carried", "sides-tagged", "fractures-tagged", "other-tags", "ends-tagged", "refinement", "target-size", "points-on-curves"} :
       \/ n = "cells-tagged" /\ \E k \in DOMAIN x.cells : x.cells[k][4] # x.areatag
       \/ n = "subdivides" /\ ~Subdivides(P, T, Around2(x), Tol)
       \/ n = "pieces-carried" /\ \E q \in S \cup F : ~(SpansPiece(x, q) /\ \A e \in steps[q] : e \in D \/ <<e[2], e[1]>> \in D)
       \/ n = "sides-tagged" /\ \E i \in DOMAIN x.box : Tagged(x.edges, x.sidetags[i]) # sideSteps(x.sidetags[i]) \/ TagList(x.edges, x.sidetags[i]) # Cardinality(sideSteps(x.sidetags[i]))
       \/ n = "fractures-tagged" /\ (Tagged(x.edges, x.linetag) # lineSteps \/ TagList(x.edges, x.linetag) # Cardinality(lineSteps))
       \/ n = "other-tags" /\ \E k \in DOMAIN x.edges : x.edges[k][3] # x.linetag /\ \A i \in DOMAIN x.sidetags : x.edges[k][3] # x.sidetags[i]
       \/ n = "ends-tagged" /\ ~(/\ \A k \in DOMAIN x.verts : \E p \in ends : Close(P[x.verts[k][1]], At2(x, p)) /\ x.verts[k][2] \in VertexTags(x, p) \cup CornerTags(x, p)
                                 /\ \A p \in ends : 0 \notin VertexTags(x, p) => \E k \in DOMAIN x.verts : Close(P[x.verts[k][1]], At2(x, p))
                                 /\ Cardinality({x.verts[k][1] : k \in DOMAIN x.verts}) = Len(x.verts))
       \/ n = "refinement" /\ ~Growth(x, 2)
       \/ n = "target-size" /\ \E q \in S \cup F : q[1] \notin Range(x.curves) /\ SpansPiece(x, q) /\ ~GoodSize(x, q)
       \/ n = "points-on-curves" /\ \E q \in S \cup F : q[1] \in Range(x.curves) /\ Len(PieceChain(x, q)) # (x.npoints - 1) * Pow(2, x.ref) + 1}
\* --- a box with a fracture network strictly inside ---------------------------------
InnerPieces(x) == UNION {LET c == Chain(MeetsOf(x.lines, j), x.lines[j][1], x.lines[j][2]) IN
                           IF MeetsOf(x.lines, j) = {} THEN {<<x.linetags[j], {x.lines[j][1], x.lines[j][2]}>>}
                           ELSE {<<x.linetags[j], {c[k], c[k + 1]}>> : k \in 1..(Len(c) - 1)} : j \in DOMAIN x.lines}
InnerVerdict(x) ==
    LET P == x.pts
        T == Cells(x.cells)
        S == {<<x.sidetags[i], {Sides(x)[i][1], Sides(x)[i][2]}>> : i \in DOMAIN x.box}
        F == InnerPieces(x)
        D == Directed(P, T)
        places == Places(x.lines)
        steps == [q \in S \cup F |-> Steps(PieceChain(x, q))]
        all(f) == UNION {Und(steps[q]) : q \in {q \in S \cup F : q[1] = f}}
        tags == {q[1] : q \in S \cup F} IN
    {n \in {"cells-tagged", "subdivides", "pieces-carried", "curves-tagged", "other-tags", "places-tagged", "refinement", "target-size", "points-on-curves"} :
       \/ n = "cells-tagged" /\ \E k \in DOMAIN x.cells : x.cells[k][4] # x.areatag
       \/ n = "subdivides" /\ ~Subdivides(P, T, Around2(x), Tol)
       \/ n = "pieces-carried" /\ \E q \in S \cup F : ~(SpansPiece(x, q) /\ \A e \in steps[q] : e \in D \/ <<e[2], e[1]>> \in D)
       \/ n = "curves-tagged" /\ \E f \in tags : Tagged(x.edges, f) # all(f) \/ TagList(x.edges, f) # Cardinality(all(f))
       \/ n = "other-tags" /\ \E k \in DOMAIN x.edges : x.edges[k][3] \notin tags
       \/ n = "places-tagged" /\ ~(/\ \A k \in DOMAIN x.verts : \E p \in places : Close(P[x.verts[k][1]], At2(x, p)) /\ x.verts[k][2] \in PlaceTags(x.lines, x.linetags, p)
                                   /\ \A p \in places : \E k \in DOMAIN x.verts : Close(P[x.verts[k][1]], At2(x, p))
                                   /\ Cardinality({x.verts[k][1] : k \in DOMAIN x.verts}) = Len(x.verts))
       \/ n = "refinement" /\ ~Growth(x, 2)
       \/ n = "target-size" /\ \E q \in S : SpansPiece(x, q) /\ ~GoodSize(x, q)
       \/ n = "points-on-curves" /\ \E q \in F : Len(PieceChain(x, q)) # (x.npoints - 1) * Pow(2, x.ref) + 1}
InnerScoped(x) ==
    /\ StrictlyConvex(Poly(x))
    /\ NetworkScope(x.lines)
    /\ \A p \in Ends(x.lines) : Inside(x, p) /\ SidesAt(x, p) = {}
\* --- a box with lines from a file, its sides and lines kept whole -----------------------
PartsOf(x, j) == IF Cuts(x, j) = {} THEN <<{Edges(x)[j][1], Edges(x)[j][2]}>> ELSE PieceSeq(x, j)
FiledTag(x, j) == IF j <= Len(x.box) THEN x.sidetags[j] ELSE MaxTag(Range(x.sidetags) \cup {x.areatag}) + j - Len(x.box)
FiledVerdict(x) ==
    LET P == x.pts
        T == Cells(x.cells)
        nb == Len(x.box)
        S == UNION {{<<FiledTag(x, j), q>> : q \in Range(PartsOf(x, j))} : j \in 1..nb}
        F == UNION {{<<FiledTag(x, j), q>> : q \in Range(PartsOf(x, j))} : j \in (nb + 1)..(nb + Len(x.lines))}
        D == Directed(P, T)
        places == FracPlaces(x)
        meets == AllTools(x)
        holders(p) == {FiledTag(x, j) : j \in {j \in DOMAIN Edges(x) : p \in {Edges(x)[j][1], Edges(x)[j][2]}}}
        fresh == FiledTag(x, nb + Len(x.lines))
        steps == [q \in S \cup F |-> Steps(PieceChain(x, q))]
        all(f) == UNION {Und(steps[q]) : q \in {q \in S \cup F : q[1] = f}}
        tags == {q[1] : q \in S \cup F}
        atp(p) == {k \in DOMAIN x.verts : Close(P[x.verts[k][1]], At2(x, p))} IN
    {n \in {"cells-tagged", "subdivides", "pieces-carried", "curves-tagged", "other-tags", "places-tagged", "meeting-tags", "refinement", "target-size", "points-on-curves"} :
       \/ n = "cells-tagged" /\ \E k \in DOMAIN x.cells : x.cells[k][4] # x.areatag
       \/ n = "subdivides" /\ ~Subdivides(P, T, Around2(x), Tol)
       \/ n = "pieces-carried" /\ \E q \in S \cup F : ~(SpansPiece(x, q) /\ \A e \in steps[q] : e \in D \/ <<e[2], e[1]>> \in D)
       \/ n = "curves-tagged" /\ \E f \in tags : Tagged(x.edges, f) # all(f) \/ TagList(x.edges, f) # Cardinality(all(f))
       \/ n = "other-tags" /\ \E k \in DOMAIN x.edges : x.edges[k][3] \notin tags
       \/ n = "places-tagged" /\ ~(/\ Cardinality({x.verts[k][1] : k \in DOMAIN x.verts}) = Len(x.verts)
                                   /\ Len(x.verts) = Cardinality(places) /\ \A p \in places : atp(p) # {})
       \/ n = "meeting-tags" /\ ~(/\ \A p \in places : \A k \in atp(p) : IF p \in meets THEN x.verts[k][2] > fresh ELSE x.verts[k][2] \in holders(p)
                                  /\ \A p \in meets \cap places : \A k \in atp(p) : \A i \in DOMAIN x.verts : k # i => x.verts[k][2] # x.verts[i][2])
       \/ n = "refinement" /\ ~Growth(x, 2)
       \/ n = "target-size" /\ \E q \in S : q[2] \notin {r[2] : r \in F} /\ SpansPiece(x, q) /\ ~GoodSize(x, q)
       \/ n = "points-on-curves" /\ \E q \in F : Len(PieceChain(x, q)) # (x.npoints - 1) * Pow(2, x.ref) + 1}
\* --- segments and networks of segments in space -----------------------------------
At3(x, p) == Scale(x.unit, p)
Max3(a) == MaxN(AbsN(a[1]), MaxN(AbsN(a[2]), AbsN(a[3])))
NearSeg3(p, a, b) ==
    LET d == Sub(b, a) c == Cross(d, Sub(p, a)) t == 2 * Tol * Max3(d) IN
    /\ Max3(c) <= t
    /\ Dot(Sub(p, a), d) >= -t /\ Dot(Sub(p, b), d) <= t
Close3(p, q) == Max3(Sub(p, q)) <= Tol
Chain3(P, a, b) == SetToSortSeq({i \in DOMAIN P : NearSeg3(P[i], a, b)}, LAMBDA i, j : Dot(Sub(P[i], a), Sub(b, a)) < Dot(Sub(P[j], a), Sub(b, a)))
NetPieces(x) == UNION {{<<x.linetags[j], q>> : q \in Pieces(FracMeets(x), x.lines[j][1], x.lines[j][2])} : j \in DOMAIN x.lines}
Chain3Of(x, q) == LET e == Pair(q[2]) IN Chain3(x.pts, At3(x, e[1]), At3(x, e[2]))
NetVertexTags(x, p) == IF p \in FracMeets(x) THEN {x.pointtag} ELSE UNION {{x.endtags[j][m] : m \in {m \in 1..2 : x.lines[j][m] = p}} : j \in DOMAIN x.lines}
NetVerdict(x) ==
    LET P == x.pts
        Q == NetPieces(x)
        chains == [q \in Q |-> Chain3Of(x, q)]
        ends == UNION {q[2] : q \in Q} IN
    {n \in {"pieces-carried", "cells-tagged", "nodes-on-the-lines", "ends-tagged", "refinement", "target-size"} :
       \/ n = "pieces-carried" /\ \E q \in Q : LET c == chains[q] e == Pair(q[2]) IN
             ~(Len(c) >= 2 /\ Close3(P[c[1]], At3(x, e[1])) /\ Close3(P[c[Len(c)]], At3(x, e[2])) /\ \A i \in 1..(Len(c) - 1) : ~Close3(P[c[i]], P[c[i + 1]]))
       \/ n = "cells-tagged" /\ ~(/\ \A f \in {q[1] : q \in Q} : Tagged(x.cells, f) = UNION {Und(Steps(chains[q])) : q \in {q \in Q : q[1] = f}}
                                  /\ Len(x.cells) = Cardinality(UNION {Und(Steps(chains[q])) : q \in Q}))
       \/ n = "nodes-on-the-lines" /\ \E i \in DOMAIN P : ~\E q \in Q : \E m \in DOMAIN chains[q] : chains[q][m] = i
       \/ n = "ends-tagged" /\ ~(/\ \A k \in DOMAIN x.verts : \E p \in ends : Close3(P[x.verts[k][1]], At3(x, p)) /\ x.verts[k][2] \in NetVertexTags(x, p)
                                 /\ \A p \in ends : \E k \in DOMAIN x.verts : Close3(P[x.verts[k][1]], At3(x, p)))
       \/ n = "refinement" /\ ~Growth(x, 1)
       \/ n = "target-size" /\ \E q \in Q : LET c == chains[q] want == x.lc \div Pow(2, x.ref) IN \E i \in 1..(Len(c) - 1) : 4 * Norm2(Sub(P[c[i]], P[c[i + 1]])) > 9 * (want + 1) * (want + 1)}
NetScoped(x) ==
    /\ \A p \in FracMeets(x) : p[1] # -9999
    /\ \A i, j \in DOMAIN x.lines : i < j => ~Overlapping(x.lines[i], x.lines[j])
\* --- a box in space: cells arrive with positive volume (turned by the recorder) -----
FaceCorners == << <<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<1, 2, 6, 5>>, <<2, 3, 7, 6>>, <<4, 3, 7, 8>>, <<1, 4, 8, 5>> >>
Canon(t) == IF t[1] < t[2] /\ t[1] < t[3] THEN t ELSE IF t[2] < t[3] THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
\* faces of <<a, b, c, d>> seen from outside
FacesOut(t) == {Canon(<<t[1], t[3], t[2]>>), Canon(<<t[1], t[2], t[4]>>), Canon(<<t[2], t[3], t[4]>>), Canon(<<t[1], t[4], t[3]>>)}
Flipped(t) == Canon(<<t[1], t[3], t[2]>>)
SolidVerdict(x) ==
    LET P == x.pts
        G == x.faces
        D == UNION {FacesOut(x.cells[k]) : k \in DOMAIN x.cells}
        rim == {t \in D : Flipped(t) \notin D}
        b(i) == x.box[i]
        centre == Add(b(1), b(7))   \* twice the centre
        \* normal of face f, pointing out (lattice coordinates)
        raw(f) == LET c == FaceCorners[f] IN Cross(Sub(b(c[2]), b(c[1])), Sub(b(c[4]), b(c[1])))
        normal(f) == LET c == FaceCorners[f] IN IF Dot(raw(f), Sub(Add(b(c[1]), b(c[3])), centre)) > 0 THEN raw(f) ELSE Scale(-1, raw(f))
        onFace(i, f) == LET m == normal(f) IN AbsN(Dot(m, Sub(P[i], At3(x, b(FaceCorners[f][1]))))) <= AbsN(m[1]) + AbsN(m[2]) + AbsN(m[3])
        tagged(f) == {{G[k][1], G[k][2], G[k][3]} : k \in {k \in DOMAIN G : G[k][4] = x.sidetags[f]}}
        rimOn(f) == {t \in rim : \A m \in 1..3 : onFace(t[m], f)}
        \* directed edges of the outer triangles of a face, and those used once
        D2(f) == UNION {Around(t) : t \in rimOn(f)}
        R2(f) == {e \in D2(f) : <<e[2], e[1]>> \notin D2(f)}
        ring(f) == LET c == FaceCorners[f] IN UNION {Und(Steps(Chain3(P, At3(x, b(c[m])), At3(x, b(c[(m % 4) + 1]))))) : m \in 1..4}
        facing(f) == \A t \in rimOn(f) : Dot(normal(f), Cross(Sub(P[t[2]], P[t[1]]), Sub(P[t[3]], P[t[1]]))) > 0 IN
    {n \in {"cells-tagged", "subdivides", "sides-covered", "sides-tagged", "other-tags", "corners", "refinement", "target-size"} :
       \/ n = "cells-tagged" /\ \E k \in DOMAIN x.cells : x.cells[k][5] # x.areatag
       \/ n = "subdivides" /\ ~(/\ x.flat = 0
                                /\ Cardinality(D) = 4 * Len(x.cells)
                                /\ \A t \in rim : \E f \in 1..6 : t \in rimOn(f)
                                /\ \A i \in DOMAIN P : \E k \in DOMAIN x.cells : i \in {x.cells[k][1], x.cells[k][2], x.cells[k][3], x.cells[k][4]})
       \/ n = "sides-covered" /\ \E f \in 1..6 : ~(facing(f) /\ Cardinality(D2(f)) = 3 * Cardinality(rimOn(f)) /\ Und(R2(f)) = ring(f))
       \/ n = "sides-tagged" /\ \E f \in 1..6 : tagged(f) # {{t[1], t[2], t[3]} : t \in rimOn(f)} \/ Cardinality({k \in DOMAIN G : G[k][4] = x.sidetags[f]}) # Cardinality(tagged(f))
       \/ n = "other-tags" /\ \E k \in DOMAIN G : \A f \in 1..6 : G[k][4] # x.sidetags[f]
       \/ n = "corners" /\ \E i \in 1..8 : ~\E j \in DOMAIN P : Close3(P[j], At3(x, b(i)))
       \/ n = "refinement" /\ ~Growth(x, 3)
       \/ n = "target-size" /\ \E f \in 1..6 : \E e \in R2(f) : 4 * Norm2(Sub(P[e[1]], P[e[2]])) > 9 * (x.lc \div Pow(2, x.ref) + 1) * (x.lc \div Pow(2, x.ref) + 1)}

Verdict(x) ==
    IF (x.ev = "filed" /\ ~FracScope(x)) \/ (x.ev = "area" /\ ~Scoped(x)) \/ (x.ev = "net" /\ ~NetScoped(x)) \/ (x.ev = "inner" /\ ~InnerScoped(x)) THEN {"harness-input-out-of-scope"}
    ELSE IF x.err # "" THEN {"answers"}
    ELSE CASE x.ev = "area" -> AreaVerdict(x)
           [] x.ev = "inner" -> InnerVerdict(x)
           [] x.ev = "filed" -> FiledVerdict(x)
           [] x.ev = "net" -> NetVerdict(x)
           [] x.ev = "solid" -> SolidVerdict(x)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
