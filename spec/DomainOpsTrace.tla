-------------------------- MODULE DomainOpsTrace ---------------------------
(* Verdicts on recorded differences, unions and intersections of           *)
(* one-dimensional domains and on the single shape operations.             *)
(*  vertex: [t, f, p]  tag, physical tag (0 none), point (observed: Unit)   *)
(*  edge:   [t, f, v]  v = two vertices                                     *)
EXTENDS DomainOps, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)

SetOf(s) == {s[i] : i \in DOMAIN s}
A(e) == e.v[1].p
B(e) == e.v[2].p
ToolPts(x) == {x.tools[i].p : i \in DOMAIN x.tools}
\* expected pieces, one record per original edge and piece
ExpPieces(x) == UNION {{[i |-> i, pts |-> q, f |-> x.edges[i].f] : q \in Pieces(ToolPts(x), A(x.edges[i]), B(x.edges[i]))} : i \in DOMAIN x.edges}
MatchEnds(o, q) == \E p \in q, r \in q : p # r /\ NearPoint(o.v[1].p, p) /\ NearPoint(o.v[2].p, r)
Same(q) == {z \in {q.pts} : TRUE}
PieceCounts(x, out) ==
    LET exp == ExpPieces(x) IN
      /\ Len(out) = Cardinality(exp)
      /\ \A q \in exp : Cardinality({k \in DOMAIN out : out[k].f = q.f /\ MatchEnds(out[k], q.pts)}) = Cardinality({r \in exp : r.pts = q.pts /\ r.f = q.f})
Untouched(x, i) == Incident(ToolPts(x), A(x.edges[i]), B(x.edges[i])) = {}
SameVertex(o, v) == o.t = v.t /\ o.f = v.f /\ NearPoint(o.p, v.p)
KeepsUntouched(x, out) == \A i \in DOMAIN x.edges : Untouched(x, i) =>
    \E k \in DOMAIN out : out[k].t = x.edges[i].t /\ out[k].f = x.edges[i].f /\ \A j \in 1..2 : \E m \in 1..2 : SameVertex(out[k].v[m], x.edges[i].v[j])
DistinctTags(s) == Cardinality({s[k].t : k \in DOMAIN s}) = Len(s)
ToolAt(x, o) == {i \in DOMAIN x.tools : NearPoint(o.p, x.tools[i].p)}
EndAt(x, o) == {v \in UNION {SetOf(x.edges[i].v) : i \in DOMAIN x.edges} : NearPoint(o.p, v.p)}
InteriorOf(x, o, f) == \E i \in DOMAIN x.edges : x.edges[i].f = f /\ \E k \in ToolAt(x, o) : Interior(x.tools[k].p, A(x.edges[i]), B(x.edges[i]))
\* an end of a piece after the difference: the tool itself on an old end, a fresh vertex inside, the old vertex elsewhere
C0End(x, o, f) ==
    IF ToolAt(x, o) # {}
    THEN \/ (EndAt(x, o) # {} /\ \E k \in ToolAt(x, o) : o.t = x.tools[k].t /\ o.f = x.tools[k].f)
         \/ (o.t >= x.tag /\ o.f = f /\ InteriorOf(x, o, f))
    ELSE \E v \in EndAt(x, o) : o.t = v.t /\ o.f = v.f
UnionEnd(x, o) ==
    IF ToolAt(x, o) # {} THEN \E k \in ToolAt(x, o) : o.t = x.tools[k].t /\ o.f = x.tools[k].f
    ELSE \E v \in EndAt(x, o) : o.t = v.t /\ o.f = v.f
EndsOf(out) == UNION {{<<k, m>> : m \in 1..2} : k \in DOMAIN out}
ListsItsVertices(out, vs) ==
    /\ DistinctTags(vs)
    /\ \A y \in EndsOf(out) : \E i \in DOMAIN vs : vs[i] = out[y[1]].v[y[2]]
    /\ \A i \in DOMAIN vs : \E y \in EndsOf(out) : vs[i] = out[y[1]].v[y[2]]
DifferenceVerdict(x) ==
    {n \in {"pieces", "untouched-kept", "edge-tags-distinct", "ends", "fresh-vertices-not-shared", "lists-its-vertices", "inputs-unchanged"} :
       \/ n = "pieces" /\ ~PieceCounts(x, x.c0)
       \/ n = "untouched-kept" /\ ~KeepsUntouched(x, x.c0)
       \/ n = "edge-tags-distinct" /\ ~DistinctTags(x.c0)
       \/ n = "ends" /\ \E y \in EndsOf(x.c0) : ~C0End(x, x.c0[y[1]].v[y[2]], x.c0[y[1]].f)
       \/ n = "fresh-vertices-not-shared" /\ \E y, z \in EndsOf(x.c0) : y # z /\ x.c0[y[1]].v[y[2]].t >= x.tag /\ x.c0[y[1]].v[y[2]].t = x.c0[z[1]].v[z[2]].t
       \/ n = "lists-its-vertices" /\ ~ListsItsVertices(x.c0, x.c0v)
       \/ n = "inputs-unchanged" /\ ~x.kept}
\* union of the pieces with the tools
UnionVerdict(x) ==
    {n \in {"same-pieces", "joined-through-tools", "lists-its-vertices", "inputs-unchanged"} :
       \/ n = "same-pieces" /\ ~(Len(x.md) = Len(x.c0) /\ \A k \in DOMAIN x.c0 : \E j \in DOMAIN x.md :
              x.md[j].t = x.c0[k].t /\ x.md[j].f = x.c0[k].f /\ {x.md[j].v[m].p : m \in 1..2} = {x.c0[k].v[m].p : m \in 1..2})
       \/ n = "joined-through-tools" /\ \E y \in EndsOf(x.md) : ~UnionEnd(x, x.md[y[1]].v[y[2]])
       \/ n = "lists-its-vertices" /\ ~ListsItsVertices(x.md, x.mdv)
       \/ n = "inputs-unchanged" /\ ~x.kept}
\* a union without a difference: vertices at the place of a tool are replaced by it
PlainUnionVerdict(x) ==
    {n \in {"same-edges", "joined-through-tools", "lists-its-vertices", "inputs-unchanged"} :
       \/ n = "same-edges" /\ ~(Len(x.md) = Len(x.edges) /\ \A k \in DOMAIN x.edges : \E j \in DOMAIN x.md :
              x.md[j].t = x.edges[k].t /\ x.md[j].f = x.edges[k].f /\ MatchEnds(x.md[j], {A(x.edges[k]), B(x.edges[k])}))
       \/ n = "joined-through-tools" /\ \E y \in EndsOf(x.md) : ~UnionEnd(x, x.md[y[1]].v[y[2]])
       \/ n = "lists-its-vertices" /\ ~ListsItsVertices(x.md, x.mdv)
       \/ n = "inputs-unchanged" /\ ~x.kept}
IntersectionVerdict(x) ==
    LET on == {p \in ToolPts(x) : \E i \in DOMAIN x.edges : OnSegment(p, A(x.edges[i]), B(x.edges[i]))} IN
    {n \in {"all-common-points", "only-common-points", "tags-distinct", "tags-from-given", "inputs-unchanged"} :
       \/ n = "all-common-points" /\ \E p \in on : ~\E i \in DOMAIN x.out : NearPoint(x.out[i].p, p)
       \/ n = "only-common-points" /\ \E i \in DOMAIN x.out : ~\E p \in on : NearPoint(x.out[i].p, p)
       \/ n = "tags-distinct" /\ ~DistinctTags(x.out)
       \/ n = "tags-from-given" /\ \E i \in DOMAIN x.out : x.out[i].t < x.tag
       \/ n = "inputs-unchanged" /\ ~x.kept}
\* single shapes
VertexVertexVerdict(x) ==
    LET same == x.a.p = x.b.p IN
    {n \in {"none-iff-apart", "position", "tag"} :
       \/ n = "none-iff-apart" /\ same # (x.out # <<>>)
       \/ n = "position" /\ x.out # <<>> /\ ~NearPoint(x.out[1].p, x.a.p)
       \/ n = "tag" /\ same /\ x.out # <<>> /\ x.out[1].t # (IF x.a.t = x.b.t THEN x.b.t ELSE x.tag)}
VertexEdgeVerdict(x) ==
    LET on == OnSegment(x.a.p, A(x.e), B(x.e))
        own == {v \in SetOf(x.e.v) : v.p = x.a.p /\ v.t = x.a.t} IN
    {n \in {"none-iff-apart", "position", "tag"} :
       \/ n = "none-iff-apart" /\ on # (x.out # <<>>)
       \/ n = "position" /\ x.out # <<>> /\ ~NearPoint(x.out[1].p, x.a.p)
       \/ n = "tag" /\ on /\ x.out # <<>> /\ x.out[1].t # (IF own # {} THEN x.a.t ELSE x.tag)}
EdgeEdgeVerdict(x) ==
    LET a == A(x.e)
        b == B(x.e)
        c == A(x.g)
        d == B(x.g)
        meet == SegmentsMeet(a, b, c, d)
        one == MeetInOnePoint(a, b, c, d)
        inner == one /\ ~\E p \in {a, b} : OnSegment(p, c, d) IN
    {n \in {"none-iff-disjoint", "position", "tag", "tag-on-contact"} :
       \/ n = "none-iff-disjoint" /\ meet # (x.out # <<>>)
       \/ n = "position" /\ one /\ x.out # <<>> /\
            ~(IF Parallel(a, b, c, d) THEN \E p \in CommonEnds(a, b, c, d) : NearPoint(x.out[1].p, p)
              ELSE Near(x.out[1].p, XNum(a, b, c, d), XDen(a, b, c, d)))
       \/ n = "tag" /\ inner /\ x.out # <<>> /\ x.out[1].t # x.tag
       \/ n = "tag-on-contact" /\ x.contact /\ one /\ x.out # <<>> /\ x.out[1].t # x.tag}
CollapseVerdict(x) ==
    LET same == x.a.p = x.b.p IN
    {n \in {"none-iff-apart", "takes-the-tool", "position", "apart-unchanged"} :
       \/ n = "none-iff-apart" /\ same # (x.out # <<>>)
       \/ n = "takes-the-tool" /\ same /\ x.out # <<>> /\ ~(x.out[1].t = x.a.t /\ x.out[1].f = (IF x.a.t = x.b.t THEN x.b.f ELSE x.a.f) /\ x.after.t = x.out[1].t)
       \/ n = "position" /\ ~NearPoint(x.after.p, x.b.p)
       \/ n = "apart-unchanged" /\ ~same /\ ~(x.after.t = x.b.t /\ x.after.f = x.b.f)}
\* two edges: at the same place, the very same, and one collapsed into the other (ends in tag order on both sides;
\* edges over the same two points whose tags run in opposite order are left open)
EdgeCollapseVerdict(x) ==
    LET same == {A(x.e), B(x.e)} = {A(x.g), B(x.g)}
        turned == same /\ A(x.e) # A(x.g)
        tags == x.e.t = x.g.t /\ \A m \in 1..2 : x.e.v[m].t = x.g.v[m].t
        vsame == A(x.e) = A(x.g)
        vtags == x.e.v[1].t = x.g.v[1].t IN
    {n \in {"same-place", "very-same", "vertices-same-place", "vertices-very-same", "none-iff-apart", "takes-the-tool", "position", "apart-unchanged", "tool-unchanged"} :
       \/ n = "same-place" /\ ~turned /\ x.same # same
       \/ n = "very-same" /\ ~turned /\ x.strong # (same /\ tags)
       \/ n = "vertices-same-place" /\ x.vsame # vsame
       \/ n = "vertices-very-same" /\ x.vstrong # (vsame /\ vtags)
       \/ n = "none-iff-apart" /\ ~turned /\ same # (x.out # <<>>)
       \/ n = "takes-the-tool" /\ same /\ x.out # <<>> /\
            ~(x.out = <<x.after>> /\ x.after.t = x.e.t /\ x.after.f = (IF tags THEN x.g.f ELSE x.e.f)
              /\ \A m \in 1..2 : x.after.v[m].t = x.e.v[m].t)
       \/ n = "position" /\ ~MatchEnds(x.after, {A(x.g), B(x.g)})
       \/ n = "apart-unchanged" /\ x.out = <<>> /\ ~(x.after.t = x.g.t /\ x.after.f = x.g.f /\ \A m \in 1..2 : x.after.v[m].t = x.g.v[m].t /\ x.after.v[m].f = x.g.v[m].f)
       \/ n = "tool-unchanged" /\ ~(x.tool.t = x.e.t /\ x.tool.f = x.e.f /\ \A m \in 1..2 : SameVertex(x.tool.v[m], x.e.v[m]))}
\* registry of a domain
RegistryVerdict(x) ==
    LET all == SetOf(x.verts) \cup SetOf(x.edges)
        tagsOf == {x.verts[i].t : i \in DOMAIN x.verts} \cup {x.edges[i].t : i \in DOMAIN x.edges}
        physOf == ({x.verts[i].f : i \in DOMAIN x.verts} \cup {x.edges[i].f : i \in DOMAIN x.edges}) \ {0}
        Top(s) == CHOOSE m \in s : \A k \in s : k <= m IN
    {n \in {"max-tag", "max-physical-tag", "by-physical-tag", "lookup", "graph", "every-shape-listed"} :
       \/ n = "max-tag" /\ x.maxtag # Top(tagsOf)
       \/ n = "max-physical-tag" /\ physOf # {} /\ x.maxphys # Top(physOf)
       \/ n = "by-physical-tag" /\ ~(SetOf(x.byphys) = {<<0, x.verts[i].t>> : i \in {j \in DOMAIN x.verts : x.verts[j].f = x.ask}} \cup {<<1, x.edges[i].t>> : i \in {j \in DOMAIN x.edges : x.edges[j].f = x.ask}})
       \/ n = "lookup" /\ \E i \in DOMAIN x.look :
            LET at == {j \in DOMAIN x.verts : x.verts[j].p = x.look[i].p} IN
              IF at = {} THEN x.look[i].t # -1 ELSE ~\E j \in at : x.verts[j].t = x.look[i].t
       \/ n = "graph" /\ SetOf(x.graph) # {<<x.edges[i].t, x.edges[i].v[m].t>> : i \in DOMAIN x.edges, m \in 1..2}
       \/ n = "every-shape-listed" /\ ~({x.listed[i] : i \in DOMAIN x.listed} = {<<0, x.verts[i].t>> : i \in DOMAIN x.verts} \cup {<<1, x.edges[i].t>> : i \in DOMAIN x.edges}
                                        /\ Len(x.listed) = Len(x.verts) + Len(x.edges))}

Verdict(x) ==
    IF x.err # "" THEN {"answers"}
    ELSE CASE x.ev = "difference" -> DifferenceVerdict(x)
           [] x.ev = "union" -> UnionVerdict(x)
           [] x.ev = "plainunion" -> PlainUnionVerdict(x)
           [] x.ev = "intersection" -> IntersectionVerdict(x)
           [] x.ev = "vertexvertex" -> VertexVertexVerdict(x)
           [] x.ev = "vertexedge" -> VertexEdgeVerdict(x)
           [] x.ev = "edgeedge" -> EdgeEdgeVerdict(x)
           [] x.ev = "collapse" -> CollapseVerdict(x)
           [] x.ev = "edgecollapse" -> EdgeCollapseVerdict(x)
           [] x.ev = "registry" -> RegistryVerdict(x)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
