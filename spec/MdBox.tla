------------------------------- MODULE MdBox -------------------------------
(* A convex polygonal box with fractures (x.box, x.sidetags, x.lines,      *)
(* x.linetag, x.endtag, x.pointtag): the conforming pieces of its sides    *)
(* and of the fractures inside it, and the tags of their ends.             *)
EXTENDS DomainOps, Polygons

P2(p) == <<p[1], p[2]>>
\* --- box with fractures ----------------------------------------------------------
Sides(x) == [i \in DOMAIN x.box |-> <<x.box[i], x.box[(i % Len(x.box)) + 1]>>]
IntMeet(s, t) == LET a == s[1] b == s[2] c == t[1] d == t[2] IN
    IF Parallel(a, b, c, d) THEN CommonEnds(a, b, c, d)
    ELSE IF ~CrossAtOnePoint(a, b, c, d) THEN {}
    ELSE LET n == XNum(a, b, c, d)
             m == XDen(a, b, c, d) IN
         IF n[1] % m = 0 /\ n[2] % m = 0 THEN {<<n[1] \div m, n[2] \div m, 0>>} ELSE {<<-9999, -9999, 0>>}
SideTools(x) == UNION {IntMeet(Sides(x)[i], x.lines[j]) : i \in DOMAIN x.box, j \in DOMAIN x.lines}
\* points of different fractures in common
FracMeets(x) == UNION {IF i = j THEN {} ELSE IntMeet(x.lines[i], x.lines[j]) : i \in DOMAIN x.lines, j \in DOMAIN x.lines}
AllTools(x) == SideTools(x) \cup FracMeets(x)
Poly(x) == [i \in DOMAIN x.box |-> P2(x.box[i])]
Inside(x, p) == InPoly(P2(p), Poly(x))
MidInside(x, q) == \E p \in q, r \in q : p # r /\ InPoly(P2(Add(p, r)), ScalePoly(2, Poly(x)))
SidePieces(x) == UNION {{<<x.sidetags[i], q>> : q \in Pieces(AllTools(x), Sides(x)[i][1], Sides(x)[i][2])} : i \in DOMAIN x.box}
FracPieces(x) == UNION {{<<x.linetag, q>> : q \in {r \in Pieces(AllTools(x), x.lines[j][1], x.lines[j][2]) : MidInside(x, r)}} : j \in DOMAIN x.lines}
Overlapping(s, t) == Parallel(s[1], s[2], t[1], t[2]) /\ Cardinality(CommonEnds(s[1], s[2], t[1], t[2])) > 1
Scoped(x) ==
    /\ StrictlyConvex(Poly(x))
    /\ \A p \in AllTools(x) : p[1] # -9999
    /\ \A i, j \in DOMAIN x.lines : i < j => ~Overlapping(x.lines[i], x.lines[j])
    /\ \A i \in DOMAIN x.box, j \in DOMAIN x.lines : ~Overlapping(Sides(x)[i], x.lines[j])
SidesAt(x, p) == {i \in DOMAIN x.box : OnSegment(p, Sides(x)[i][1], Sides(x)[i][2])}
\* physical tags a vertex at p may carry
VertexTags(x, p) ==
    IF p \in SideTools(x) \/ (p \in FracMeets(x) /\ SidesAt(x, p) # {}) THEN {x.sidetags[i] : i \in SidesAt(x, p)}
    ELSE IF \E i \in DOMAIN x.box : x.box[i] = p THEN {0}
    ELSE IF p \in FracMeets(x) THEN {x.pointtag}
    ELSE {x.endtag}
===========================================================================
