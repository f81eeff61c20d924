--------------------------- MODULE MeshEditTrace ---------------------------
EXTENDS MeshEdit, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cells, pts, held, l
vars == <<cells, pts, held, l>>
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)

\* the state the mesh must show after an operation
After(e, C, P, H) ==
    {n \in {"cells-after", "points-after", "copies-after", "next-identifiers"} :
        \/ n = "cells-after" /\ e.cells # C
        \/ n = "points-after" /\ e.pts # P
        \/ n = "copies-after" /\ e.held # H
        \/ n = "next-identifiers" /\ (e.nextid # NextId(C) \/ e.nextnode # NextNode(P))}
Step(e, C, P, H, extra) ==
    /\ Report(After(e, C, P, H) \cup extra)
    \* resynchronise: one deviation is reported once
    /\ cells' = e.cells /\ pts' = e.pts /\ held' = e.held
Done(e) == IF e.err = "" THEN {} ELSE {"operation-completes"}
Refused(e) == IF e.err # "" THEN {} ELSE {"refuses"}

FindVerdict(e) ==
    IF e.err # "" THEN {"query-completes"}
    ELSE LET c == CellAt(cells, e.cell) IN
         {n \in {"finds-position"} : e.res # (IF e.kind = "face" THEN FaceIndex(c, e.dim, e.target) ELSE NodeIndex(c, e.target))}
GraphVerdict(e) ==
    IF e.err # "" THEN {"graph-completes"}
    ELSE {n \in {"graph-after-change"} : RangeOf(e.edges) # Links(cells, e.d, e.e)}
ExchangeVerdict(e) ==
    IF e.err # "" THEN {"exchange-completes"}
    ELSE LET r == ExchangeAll(RangeOf(e.edges), RangeOf(e.nodes), e.pairs) IN
         {n \in {"exchanged-edges", "exchanged-nodes"} :
            \/ n = "exchanged-edges" /\ RangeOf(e.edges2) # r[1]
            \/ n = "exchanged-nodes" /\ RangeOf(e.nodes2) # r[2]}
\* a mesh filled cell by cell: equal descriptions meet one cell, others get the next identifier
InsertVerdict(e) ==
    IF e.err # "" THEN {"insertion-completes"}
    ELSE LET N == Len(e.keys)
             firsts == {k \in 1..N : \A j \in 1..(k - 1) : e.keys[j] # e.keys[k]}
         IN {n \in {"one-cell-per-description", "identifiers-in-order", "keeps-first-cell", "cell-count"} :
               \/ n = "one-cell-per-description" /\ \E j, k \in 1..N : (e.keys[j] = e.keys[k]) # (e.ids[j] = e.ids[k])
               \/ n = "identifiers-in-order" /\ \E k \in firsts : e.ids[k] # Cardinality({j \in firsts : j < k})
               \/ n = "keeps-first-cell" /\ \E k \in 1..N : e.objs[k] # (CHOOSE j \in firsts : e.keys[j] = e.keys[k]) - 1
               \/ n = "cell-count" /\ e.count # Cardinality(firsts)}
SameObs(e) == UNCHANGED <<cells, pts, held>>
InScope(e) == SameDimension(cells, RangeOf(e.cells0))

TraceInit == cells = <<>> /\ pts = <<>> /\ held = <<>> /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       \/ e.ev = "load" /\ Report(IF e.err # "" THEN {"mesh-builds"}
                                   ELSE {n \in {"identifiers-are-positions", "nodes-match"} :
                                           \/ n = "identifiers-are-positions" /\ ~ IdsArePositions(e.cells)
                                           \/ n = "nodes-match" /\ ~ (NodesMatch(e.cells) /\ FacesMatch(e.cells))})
          /\ cells' = e.cells /\ pts' = e.pts /\ held' = e.held
       \/ e.ev = "points" /\ Step(e, cells, AddPoints(pts, e.new), held, Done(e))
       \/ e.ev = "double" /\ Step(e, cells, AddPoints(pts, <<pts[e.node + 1]>>), held,
                                  Done(e) \cup (IF e.err = "" /\ e.res # <<NextNode(pts)>> THEN {"returns-new-node"} ELSE {}))
       \* copies of cells under new identifiers and tags
       \/ e.ev = "copy" /\ Step(e, cells, pts, held \o [k \in DOMAIN e.of |-> CopyAs(CellAt(cells, e.of[k]), e.ids[k], e.tags[k])], Done(e))
       \/ e.ev = "edit" /\ Step(e, cells, pts,
                                [held EXCEPT ![e.k].x = e.x, ![e.k].s[e.dim + 1] = e.faces], Done(e))
       \/ e.ev = "own" /\ Step(e, cells,
                               IF e.ks = <<>> THEN pts ELSE OwnPlaces(pts, [k \in DOMAIN e.ks |-> held[e.ks[k]]]),
                               [k \in DOMAIN held |->
                                  IF k \in RangeOf(e.ks) THEN OwnNodes(pts, [j \in DOMAIN e.ks |-> held[e.ks[j]]])[First(e.ks, k)] ELSE held[k]],
                               Done(e))
       \/ e.ev = "add" /\ LET B == [k \in DOMAIN e.ks |-> held[e.ks[k]]]
                              ok == Fresh(cells, B)
                          IN Step(e, AddCells(cells, B), pts,
                                  IF ok THEN SelectSeq([k \in DOMAIN held |-> IF k \in RangeOf(e.ks) THEN [id |-> -5] ELSE held[k]], LAMBDA h : h.id # -5) ELSE held,
                                  IF ok THEN Done(e) ELSE Refused(e))
       \/ e.ev = "drop" /\ Step(e, cells, pts, <<>>, {})
       \/ e.ev = "reroute" /\ IF InScope(e)
                              THEN Step(e, Reroute(cells, RangeOf(e.cells0), e.pairs), pts, held, Done(e))
                              ELSE Step(e, cells, pts, held, Refused(e))
       \/ e.ev = "mapfaces" /\ Step(e, MapFaces(cells, e.dim, e.cell, RangeOf(e.map)), pts, held, Done(e))
       \/ e.ev = "mapnodes" /\ Step(e, MapNodes(cells, e.cell, RangeOf(e.map)), pts, held, Done(e))
       \/ e.ev = "find" /\ Report(FindVerdict(e)) /\ SameObs(e)
       \/ e.ev = "graph" /\ Report(GraphVerdict(e)) /\ SameObs(e)
       \/ e.ev = "exchange" /\ Report(ExchangeVerdict(e)) /\ SameObs(e)
       \/ e.ev = "insert" /\ Report(InsertVerdict(e)) /\ SameObs(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
=============================================================================
