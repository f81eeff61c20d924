-------------------------- MODULE IncidenceTrace --------------------------
EXTENDS Incidence, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
Stay == UNCHANGED ivars

\* graph edges as logged: <<dim, id, dim, id>>
Expect(S, d, e) == {<<d, p[1], e, p[2]>> : p \in GraphOver(S, e)}

GraphVerdict(e) ==
    IF e.err # "" THEN {"graph-completes"}
    ELSE LET S == CASE e.kind = "all" -> CellsOf(e.dim)
                    [] e.kind = "tags" -> Selected(e.dim, FALSE, RangeOf(e.tags))
                    [] e.kind = "ids" -> CellsOf(e.dim) \cap RangeOf(e.ids)
                    [] e.kind = "materials" -> {c \in CellsOf(e.dim) : mat[c] # NoTag}
             X == Expect(S, e.dim, e.dim - e.codim)
         IN {n \in {"graph-edges-missing", "graph-edges-extra", "graph-nodes"} :
              \/ n = "graph-edges-missing" /\ \E x \in X : x \notin RangeOf(e.edges)
              \/ n = "graph-edges-extra" /\ \E x \in RangeOf(e.edges) : x \notin X
              \/ n = "graph-nodes" /\ RangeOf(e.nodes) # {<<x[1], x[2]>> : x \in X} \cup {<<x[3], x[4]>> : x \in X}}

TopoVerdict(e) ==
    IF e.dim > e.meshdim THEN (IF e.err = "" THEN {"dimension-guard"} ELSE {})
    ELSE IF e.err # "" THEN {"topology-completes"}
    ELSE LET S == Selected(e.dim, e.all, RangeOf(e.tags))
         IN {n \in {"entities-complete", "entities-once", "codimension-consistent", "maps"} :
              \/ n = "entities-complete" /\ \E k \in 0..e.dim : RangeOf(e.ents[k + 1]) # {p[2] : p \in GraphOver(S, k)}
              \/ n = "entities-once" /\ \E k \in 0..e.dim : Cardinality(RangeOf(e.ents[k + 1])) # Len(e.ents[k + 1])
              \/ n = "codimension-consistent" /\ \E k \in 0..e.dim :
                     \/ RangeOf(e.coents[k + 1]) # {p[2] : p \in GraphOver(S, e.dim - k)}
                     \/ RangeOf(e.comaps[k + 1]) # Expect(S, e.dim, e.dim - k)
              \/ n = "maps" /\ \E k \in 0..e.dim : RangeOf(e.maps[k + 1]) # Expect(S, e.dim, k)}

HigherVerdict(e) ==
    IF e.err # "" THEN {"query-completes"}
    ELSE {n \in {"higher-neighbours", "higher-once"} :
           \/ n = "higher-neighbours" /\ RangeOf(e.res) # {<<view.dim, c>> : c \in Higher(e.cell)}
           \/ n = "higher-once" /\ Len(e.res) # Cardinality(RangeOf(e.res))}
SubVerdict(e) ==
    IF e.err # "" THEN {"query-completes"}
    ELSE {n \in {"sub-entities"} : RangeOf(e.res) # Facets(e.cell, e.codim)}

TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
         \/ /\ e.ev = "mesh"
            /\ Load([i \in 0..(Len(e.supp) - 1) |-> RangeOf(e.supp[i + 1])], [i \in 0..(Len(e.supp) - 1) |-> e.mat[i + 1]])
         \/ e.ev = "graph" /\ Report(GraphVerdict(e)) /\ Stay
         \/ e.ev = "topo" /\ Report(TopoVerdict(e)) /\ BuildView(e.dim, e.all, RangeOf(e.tags))
         \/ e.ev = "higher" /\ Report(HigherVerdict(e)) /\ Stay
         \/ e.ev = "sub" /\ Report(SubVerdict(e)) /\ Stay
TraceSpec == TraceInit /\ [][TraceNext]_<<ivars, l>>
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
