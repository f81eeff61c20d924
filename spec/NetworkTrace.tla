---------------------------- MODULE NetworkTrace ----------------------------
(* Verdicts on fracture networks built by the code, on the intersections   *)
(* of segments they rest on and on the pairing of tags.                    *)
EXTENDS Network, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
\* --- two segments: the answer is a flag and up to two points ------------------------
CrossVerdict(x) ==
    LET a == x.seg[1] b == x.seg[2] c == x.seg[3] d == x.seg[4]
        par == Parallel(a, b, c, d)
        meet == SegmentsMeet(a, b, c, d) IN
    {n \in {"meet", "point", "stretch"} :
       \/ n = "meet" /\ x.q # meet
       \/ n = "point" /\ meet /\ ~par /\ x.q /\ (x.p1 = <<>> \/ ~Near(x.p1, XNum(a, b, c, d), XDen(a, b, c, d)))
       \/ n = "stretch" /\ meet /\ par /\ x.q /\ ~(x.p1 # <<>> /\ x.p2 # <<>> /\
             LET E == CommonEnds(a, b, c, d) IN \E p, q \in E : (Cardinality(E) > 1 => p # q) /\ NearPoint(x.p1, p) /\ NearPoint(x.p2, q))}
\* --- networks -----------------------------------------------------------------------
\* cells: [id, d, f, pt, bc, im], listed in order; ids of boundary and immersed cells
NetworkVerdict(x) ==
    LET L == x.lines
        C == x.cells
        N == Len(C)
        ok(i) == i + 1 \in 1..N
        cell(i) == C[i + 1]
        point(i) == x.pts[cell(i).pt + 1]
        isVertex(i) == ok(i) /\ cell(i).d = 0 /\ cell(i).pt + 1 \in DOMAIN x.pts
        isEdge(i) == ok(i) /\ cell(i).d = 1 /\ Len(cell(i).bc) = 2 /\ \A m \in 1..2 : isVertex(cell(i).bc[m])
        at(i, p) == isVertex(i) /\ NearPoint(point(i), p)
        joins(i, p, q) == isEdge(i) /\ at(cell(i).bc[1], p) /\ at(cell(i).bc[2], q)
        whole(i, j) == joins(i, L[j][1], L[j][2]) /\ cell(i).f = x.tags[j]
        host(j) == {i \in 0..(N - 1) : i \in Range(x.hosts) /\ whole(i, j)}
        chain(j) == Chain(MeetsOf(L, j), L[j][1], L[j][2])
        cut(i, j) == LET c == chain(j) m == cell(i).im IN
            IF MeetsOf(L, j) = {} THEN m = <<>>
            ELSE Len(m) = Len(c) - 1 /\ \A k \in DOMAIN m : joins(m[k], c[k], c[k + 1]) /\ cell(m[k]).f = x.tags[j] /\ cell(m[k]).im = <<>>
        vs == {i \in 0..(N - 1) : ok(i) /\ cell(i).d = 0}
        pieces == UNION {Range(cell(i).im) : i \in Range(x.hosts)}
        below(i) == {<<i, k>> : k \in Range(cell(i).bc) \cup Range(cell(i).im)}
        full == UNION {below(i) : i \in {i \in 0..(N - 1) : cell(i).d = 1}}
        bare == UNION {below(i) : i \in {i \in 0..(N - 1) : cell(i).d = 1 /\ cell(i).im = <<>>}} IN
    {n \in {"ids", "tags-listed", "one-vertex-per-place", "fractures-listed", "pieces", "vertex-tags", "no-other-cells", "graph-full", "graph-pieces"} :
       \/ n = "ids" /\ \E k \in 1..N : C[k].id # k - 1
       \/ n = "tags-listed" /\ x.listed # x.tags
       \/ n = "one-vertex-per-place" /\ ~(Cardinality(vs) = Cardinality(Places(L)) /\ Len(x.pts) = Cardinality(vs)
                                            /\ \A p \in Places(L) : \E i \in vs : at(i, p))
       \/ n = "fractures-listed" /\ ~(Len(x.hosts) = Len(L) /\ \A j \in DOMAIN L : x.hosts[j] + 1 \in 1..N /\ whole(x.hosts[j], j))
       \/ n = "pieces" /\ Len(x.hosts) = Len(L) /\ \E j \in DOMAIN L : isEdge(x.hosts[j]) /\ ~cut(x.hosts[j], j)
       \/ n = "vertex-tags" /\ \E i \in vs : \E p \in Places(L) : at(i, p) /\ cell(i).f \notin PlaceTags(L, x.tags, p)
       \/ n = "no-other-cells" /\ {i \in 0..(N - 1) : cell(i).d = 1} # Range(x.hosts) \cup pieces
       \/ n = "graph-full" /\ {<<x.graph[k][1], x.graph[k][2]>> : k \in DOMAIN x.graph} # full
       \/ n = "graph-pieces" /\ {<<x.short[k][1], x.short[k][2]>> : k \in DOMAIN x.short} # bare}
PairVerdict(x) ==
    {n \in {"pair", "unpair"} :
       \/ n = "pair" /\ x.z # PairTag(x.x, x.y)
       \/ n = "unpair" /\ x.back # <<x.x, x.y>>}
Verdict(x) ==
    IF x.ev = "network" /\ ~NetworkScope(x.lines) THEN {"harness-input-out-of-scope"}
    ELSE IF x.err # "" THEN {"answers"}
    ELSE CASE x.ev = "network" -> NetworkVerdict(x)
           [] x.ev = "cross" -> CrossVerdict(x)
           [] x.ev = "pair" -> PairVerdict(x)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
