---------------------------- MODULE FracBoxTrace ----------------------------
(* Verdicts on boxes with lines read from a file, as built by the code.    *)
EXTENDS FracBox, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
Rng(s) == {s[k] : k \in DOMAIN s}
DistinctSeq(s) == Cardinality(Rng(s)) = Len(s)
Joins(e, q) == \E p \in q, r \in q : p # r /\ NearPoint(e.v[1].p, p) /\ NearPoint(e.v[2].p, r)
Start(e) == IF e.o = 1 THEN e.v[1].t ELSE e.v[2].t
Stop(e) == IF e.o = 1 THEN e.v[2].t ELSE e.v[1].t
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
RECURSIVE Concat(_, _)
Concat(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Concat(s, k + 1)
FracVerdict(x) ==
    LET E == TLCEval(Edges(x))
        nb == Len(x.box)
        T == TLCEval(AllTools(x))
        hosts == x.edges
        maxp == MaxTag(Rng(x.sidetags) \cup {x.areatag})
        ftag(j) == IF j <= nb THEN x.sidetags[j] ELSE maxp + j - nb
        seq == TLCEval([j \in DOMAIN E |-> PieceSeq(x, j)])
        matches(ps, c) == Len(ps) = Len(c) /\ \A i \in DOMAIN c : Joins(ps[i], c[i])
        places == FracPlaces(x)
        at(p) == {k \in DOMAIN x.verts : NearPoint(x.verts[k].p, p)}
        pieceTags == UNION {{hosts[j].pieces[i].t : i \in DOMAIN hosts[j].pieces} : j \in DOMAIN hosts}
        allEdges == UNION {{hosts[j]} \cup Rng(hosts[j].pieces) : j \in DOMAIN hosts}
        fseq == Concat([j \in DOMAIN hosts |-> <<hosts[j].t>> \o [i \in DOMAIN hosts[j].pieces |-> hosts[j].pieces[i].t]], 1)
        bseq == BoundarySeq(x)
        flat == Concat(bseq, 1)
        \* the pieces of a side stand for it
        shown(j) == j > nb \/ hosts[j].pieces = <<>>
        graph == {<<0, x.faceid, 1, t>> : t \in Rng(x.facewires) \cup Rng(x.faceedges)}
           \cup {<<1, x.wiretag, 1, x.wire[k].t>> : k \in DOMAIN x.wire}
           \cup {<<1, x.wiretag, 2, x.wirebc[k]>> : k \in DOMAIN x.wirebc}
           \cup UNION {{<<1, hosts[j].t, 1, hosts[j].pieces[i].t>> : i \in DOMAIN hosts[j].pieces} : j \in {j \in DOMAIN hosts : shown(j)}}
           \cup UNION {{<<1, e.t, 2, e.v[m].t>> : m \in 1..2} : e \in UNION {Rng(hosts[j].pieces) \cup (IF shown(j) THEN {hosts[j]} ELSE {}) : j \in DOMAIN hosts}} IN
    {n \in {"edges-kept", "pieces", "one-vertex-per-place", "listed-vertices", "meeting-tags", "fragments-listed", "tags-distinct", "wire", "closed-wire", "wire-vertex", "face", "graph"} :
       \/ n = "edges-kept" /\ ~(Len(hosts) = Len(E) /\ \A j \in DOMAIN E : hosts[j].f = ftag(j) /\ Joins(hosts[j], {E[j][1], E[j][2]}))
       \/ n = "pieces" /\ Len(hosts) = Len(E) /\ \E j \in DOMAIN E : ~(matches(hosts[j].pieces, seq[j]) \/ matches(hosts[j].pieces, Rev(seq[j])))
       \/ n = "one-vertex-per-place" /\ ~(Len(x.verts) = Cardinality(places) /\ \A p \in places : at(p) # {})
       \/ n = "listed-vertices" /\ \E e \in allEdges : \E m \in 1..2 : e.v[m] \notin Rng(x.verts)
       \/ n = "meeting-tags" /\ ~(/\ \A p \in places : \A k \in at(p) : IF p \in T THEN x.verts[k].f > maxp + Len(x.lines) ELSE x.verts[k].f = 0
                                  /\ \A k, i \in DOMAIN x.verts : k # i /\ x.verts[k].f # 0 => x.verts[k].f # x.verts[i].f)
       \/ n = "fragments-listed" /\ ~(Rng(x.frags) = pieceTags /\ DistinctSeq(x.frags))
       \/ n = "tags-distinct" /\ ~(DistinctSeq(Append(fseq, x.wiretag)) /\ DistinctSeq([k \in DOMAIN x.verts |-> x.verts[k].t]))
       \/ n = "wire" /\ ~(Len(x.wire) = Len(flat) /\ \A q \in Rng(flat) : \E k \in DOMAIN x.wire : Joins(x.wire[k], q))
       \/ n = "closed-wire" /\ ~(\A k \in DOMAIN x.wire : x.wire[k].o \in {1, -1} /\ Stop(x.wire[k]) = Start(x.wire[(k % Len(x.wire)) + 1]))
       \/ n = "wire-vertex" /\ \E t \in Rng(x.wirebc) : ~\E e \in Rng(x.wire) : e.v[1].t = t \/ e.v[2].t = t
       \/ n = "face" /\ ~(x.facetag = x.areatag /\ x.facewires = <<x.wiretag>> /\ Len(hosts) = Len(E) /\ Rng(x.faceedges) = {hosts[j].t : j \in (nb + 1)..Len(E)})
       \/ n = "graph" /\ Rng(x.graph) # graph}
\* points of a file, line by line
ReadVerdict(x) == IF x.got = x.want THEN {} ELSE {"file-points"}
\* vertices put on an edge (a vertex at an end takes the place of the end, tags 10 and on)
EmbedVerdict(x) ==
    LET a == x.edge[1] b == x.edge[2]
        P == {p \in Rng(x.points) : Interior(p, a, b)}
        c == Chain(P, a, b)
        taken(p) == \E i \in DOMAIN x.points : x.points[i] = p IN
    {n \in {"ends", "pieces", "returned", "piece-tags"} :
       \/ n = "ends" /\ ~(/\ NearPoint(x.ends[1], a) /\ NearPoint(x.ends[2], b)
                          /\ \A m \in 1..2 : IF taken(x.edge[m]) THEN x.points[x.endtags[m] - 9] = x.edge[m] ELSE x.endtags[m] = m - 1)
       \/ n = "pieces" /\ ~(IF P = {} THEN x.pieces = <<>> ELSE Len(x.pieces) = Len(c) - 1 /\ \A i \in DOMAIN x.pieces : Joins(x.pieces[i], {c[i], c[i + 1]}))
       \/ n = "returned" /\ ~(Len(x.got) = Cardinality(P) /\ \A p \in P : \E i \in DOMAIN x.got : NearPoint(x.got[i], p))
       \/ n = "piece-tags" /\ ~(\A i \in DOMAIN x.pieces : x.pieces[i].t = 39 + i)}
Verdict(x) ==
    IF x.ev = "fracbox" /\ ~FracScope(x) THEN {"harness-input-out-of-scope"}
    ELSE IF x.err # "" THEN {"answers"}
    ELSE CASE x.ev = "fracbox" -> FracVerdict(x)
           [] x.ev = "embed" -> EmbedVerdict(x)
           [] x.ev = "read" -> ReadVerdict(x)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
