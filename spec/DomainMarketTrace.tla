------------------------- MODULE DomainMarketTrace -------------------------
(* Verdicts on the domains built from boxes and fractures: the boundary    *)
(* wire, the conforming pieces and the tags, and the 3D box.               *)
EXTENDS MdBox, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)

DistinctT(s) == Cardinality({s[k].t : k \in DOMAIN s}) = Len(s)
\* --- wires: sequence of edges [t, v] with orientation signs ---------------------
Start(w, k) == IF w[k].o = 1 THEN w[k].v[1] ELSE w[k].v[2]
Stop(w, k) == IF w[k].o = 1 THEN w[k].v[2] ELSE w[k].v[1]
ClosedWire(w) == \A k \in DOMAIN w : w[k].o \in {1, -1} /\ Stop(w, k).t = Start(w, (k % Len(w)) + 1).t
EdgeIs(o, f, q) == o.f = f /\ \E p \in q, r \in q : p # r /\ NearPoint(o.v[1].p, p) /\ NearPoint(o.v[2].p, r)
BoxVerdict(x) ==
    LET exp == SidePieces(x) \cup FracPieces(x)
        locs == UNION {q[2] : q \in exp} IN
    {n \in {"conforming-pieces", "one-vertex-per-place", "vertex-tags", "edges-use-listed-vertices", "tags-distinct", "closed-wire", "wire-is-boundary", "face", "graph"} :
       \/ n = "conforming-pieces" /\ ~(Len(x.edges) = Cardinality(exp) /\ \A q \in exp : \E k \in DOMAIN x.edges : EdgeIs(x.edges[k], q[1], q[2]))
       \/ n = "one-vertex-per-place" /\ ~(Len(x.verts) = Cardinality(locs) /\ \A p \in locs : \E k \in DOMAIN x.verts : NearPoint(x.verts[k].p, p))
       \/ n = "vertex-tags" /\ \E p \in locs : \E k \in DOMAIN x.verts : NearPoint(x.verts[k].p, p) /\ x.verts[k].f \notin VertexTags(x, p)
       \/ n = "edges-use-listed-vertices" /\ \E k \in DOMAIN x.edges : \E m \in 1..2 : ~\E i \in DOMAIN x.verts : x.verts[i] = x.edges[k].v[m]
       \/ n = "tags-distinct" /\ ~(DistinctT(x.edges) /\ DistinctT(x.verts) /\ \A k \in DOMAIN x.edges : x.edges[k].t # x.wiretag)
       \/ n = "closed-wire" /\ ~ClosedWire(x.wire)
       \/ n = "wire-is-boundary" /\ ~(Len(x.wire) = Cardinality(SidePieces(x)) /\ \A q \in SidePieces(x) : \E k \in DOMAIN x.wire : EdgeIs(x.wire[k], q[1], q[2]))
       \/ n = "face" /\ ~(x.facetag = x.areatag /\ x.facewires = <<x.wiretag>> /\
             ({x.faceedges[i] : i \in DOMAIN x.faceedges} = {x.edges[k].t : k \in DOMAIN x.edges} \/ (x.lines = <<>> /\ x.faceedges = <<>>)))
       \/ n = "graph" /\ x.graph # <<>> /\ {x.graph[i] : i \in DOMAIN x.graph} #
             {<<0, x.faceid, 1, x.wiretag>>} \cup {<<1, x.wiretag, 1, x.wire[k].t>> : k \in DOMAIN x.wire}
             \cup {<<1, x.edges[k].t, 2, x.edges[k].v[m].t>> : k \in DOMAIN x.edges, m \in 1..2} \cup {<<1, x.wiretag, 2, x.wirebc[i]>> : i \in DOMAIN x.wirebc}
             \cup {<<0, x.faceid, 1, x.faceedges[i]>> : i \in DOMAIN x.faceedges}}
\* --- segment ----------------------------------------------------------------------
LineVerdict(x) ==
    {n \in {"one-edge", "vertex-tags"} :
       \/ n = "one-edge" /\ ~(Len(x.edges) = 1 /\ Len(x.verts) = 2 /\ EdgeIs(x.edges[1], x.linetag, {x.box[1], x.box[2]}))
       \/ n = "vertex-tags" /\ ~(\A i \in 1..2 : \E k \in DOMAIN x.verts : NearPoint(x.verts[k].p, x.box[i]) /\ x.verts[k].f = x.sidetags[i])}
\* --- 3D box: corners 1..4 one base in order, 5..8 the opposite one -------------------
\* faces in the order of their boundary tags
FaceCorners == << {1, 2, 3, 4}, {5, 6, 7, 8}, {1, 2, 5, 6}, {2, 3, 6, 7}, {3, 4, 7, 8}, {1, 4, 5, 8} >>
SolidVerdict(x) ==
    LET cornersOf(w) == {i \in 1..8 : \E k \in DOMAIN w : \E m \in 1..2 : NearPoint(w[k].v[m].p, x.box[i])} IN
    {n \in {"counts", "closed-wires", "faces", "every-edge-in-two-faces", "tags-distinct", "solid", "wires", "graph"} :
       \/ n = "counts" /\ ~(Len(x.verts) = 8 /\ Len(x.edges) = 12 /\ Len(x.faces) = 6 /\ \A i \in 1..8 : \E k \in 1..8 : NearPoint(x.verts[k].p, x.box[i]))
       \/ n = "closed-wires" /\ \E f \in DOMAIN x.faces : ~(ClosedWire(x.faces[f].wire) /\ Len(x.faces[f].wire) = 4)
       \/ n = "faces" /\ \E f \in DOMAIN x.faces : ~(cornersOf(x.faces[f].wire) = FaceCorners[f] /\ x.faces[f].f = x.sidetags[f])
       \/ n = "every-edge-in-two-faces" /\ \E k \in DOMAIN x.edges : Cardinality({f \in DOMAIN x.faces : \E j \in DOMAIN x.faces[f].wire : x.faces[f].wire[j].t = x.edges[k].t}) # 2
       \/ n = "tags-distinct" /\ ~(DistinctT(x.verts) /\ DistinctT(x.edges \o x.wires) /\ DistinctT(x.faces) /\ \A f \in DOMAIN x.faces : x.faces[f].t # x.shelltag)
       \/ n = "wires" /\ ~(Len(x.wires) = 6 /\ Len(x.facewires) = 6 /\ {x.facewires[i][2] : i \in 1..6} = {x.wires[i].t : i \in 1..6}
             /\ (\A f \in DOMAIN x.faces : \E i \in 1..6 : \E j \in 1..6 : x.facewires[i] = <<x.faces[f].t, x.wires[j].t>>
                   /\ {x.wires[j].e[k] : k \in DOMAIN x.wires[j].e} = {x.faces[f].wire[k].t : k \in DOMAIN x.faces[f].wire})
             \* each wire starts and ends at a vertex of its own
             /\ \A j \in 1..6 : \A k \in DOMAIN x.wires[j].b : \E m \in DOMAIN x.edges : \E i \in DOMAIN x.wires[j].e :
                   x.edges[m].t = x.wires[j].e[i] /\ x.wires[j].b[k] \in {x.edges[m].v[1].t, x.edges[m].v[2].t})
       \/ n = "graph" /\ {x.graph[i] : i \in DOMAIN x.graph} #
             {<<0, x.solidid, 1, x.shelltag>>} \cup {<<1, x.shelltag, 1, x.faces[f].t>> : f \in DOMAIN x.faces} \cup {<<1, x.shelltag, 2, x.wires[j].t>> : j \in DOMAIN x.wires}
             \cup {<<1, x.facewires[i][1], 2, x.facewires[i][2]>> : i \in DOMAIN x.facewires}
             \cup UNION {{<<2, x.wires[j].t, 2, x.wires[j].e[k]>> : k \in DOMAIN x.wires[j].e} : j \in DOMAIN x.wires}
             \cup UNION {{<<2, x.wires[j].t, 3, x.wires[j].b[k]>> : k \in DOMAIN x.wires[j].b} : j \in DOMAIN x.wires}
             \cup {<<2, x.edges[k].t, 3, x.edges[k].v[m].t>> : k \in DOMAIN x.edges, m \in 1..2}
       \/ n = "solid" /\ ~(x.solidtag = x.areatag /\ {x.shell[i] : i \in DOMAIN x.shell} = {x.faces[f].t : f \in DOMAIN x.faces})}

Verdict(x) ==
    IF x.ev = "box" /\ ~Scoped(x) THEN {"harness-input-out-of-scope"}
    ELSE IF x.err # "" THEN {"answers"}
    ELSE CASE x.ev = "box" -> BoxVerdict(x)
           [] x.ev = "line" -> LineVerdict(x)
           [] x.ev = "solid" -> SolidVerdict(x)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
