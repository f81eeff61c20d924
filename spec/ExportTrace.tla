----------------------------- MODULE ExportTrace -----------------------------
EXTENDS Export, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
Tol == 20000
Is(o, v) == o[1] = Md(v) /\ o[2] <= Tol
Hole(o, fill) == o = IF fill = "nan" THEN <<-1, 0>> ELSE <<0, 0>>

Geo(e) == \A j \in DOMAIN e.polys : InSpace(e.family, e.k, e.dim, e.polys[j])
On(e) == {e.on[j] : j \in DOMAIN e.on}
Field(e, j) == e.polys[e.which[j]]
Idx(e) == Flatten(e.polys[1])
Centre(e, j) == LET V == [h \in DOMAIN e.cells[j] |-> e.P[e.cells[j][h] + 1]] IN At(V, [h \in DOMAIN V |-> 1], Len(V))
\* observations are n times (errors: n^2 times the square of) the value, n the number of attached cells; for cells `scale` times
PointVerdict(e) ==
    LET sums(v) == [h \in DOMAIN Idx(e) |-> LET r(j) == Field(e, j) IN VertexSum(e.cells, On(e), v - 1, e.P[v], r, Idx(e)[h][1], Idx(e)[h][2])]
        n(v) == Cardinality(Attached(e.cells, On(e), v - 1))
        ex(v) == [h \in DOMAIN Idx(e) |-> Eval(e.exact[Idx(e)[h][1]][Idx(e)[h][2]], e.P[v])]
        bad(v) == IF n(v) = 0 THEN \E h \in DOMAIN e.obs[v] : ~Hole(e.obs[v][h], e.fill)
                  ELSE CASE e.kind = "h" -> LET s == sums(v) IN Len(e.obs[v]) # Len(s) \/ \E h \in DOMAIN s : ~Is(e.obs[v][h], s[h])
                         [] e.kind = "e" -> LET s == ex(v) IN Len(e.obs[v]) # Len(s) \/ \E h \in DOMAIN s : ~Is(e.obs[v][h], n(v) * s[h])
                         [] OTHER -> LET s == sums(v) x == ex(v)
                                         f(h) == LET d == Md(n(v) * x[h] - s[h]) IN Md(d * d)
                                     IN Len(e.obs[v]) # 1 \/ ~Is(e.obs[v][1], SumTo(f, Len(s)))
    IN {k \in {"harness-input-out-of-scope", "point-data"} :
       \/ k = "harness-input-out-of-scope" /\ (~Geo(e) \/ \E v \in DOMAIN e.P : e.n[v] # n(v))
       \/ k = "point-data" /\ (Len(e.obs) # Len(e.P) \/ \E v \in DOMAIN e.obs : bad(v))}
CellVerdict(e) ==
    LET at(r) == CHOOSE j \in DOMAIN e.cells : RangeOf(e.cells[j]) = RangeOf(e.conn[r])
        vals(j, rows) == [h \in DOMAIN Idx(e) |-> Eval(rows[Idx(e)[h][1]][Idx(e)[h][2]], Centre(e, j))]
        bad(r) == LET j == at(r) IN
                  IF j \notin On(e) THEN \E h \in DOMAIN e.obs[r] : ~Hole(e.obs[r][h], e.fill)
                  ELSE LET s == vals(j, Field(e, j)) x == vals(j, e.exact)
                           f(h) == LET d == Md(Md(e.scale) * Md(x[h] - s[h])) IN Md(d * d)
                           w == IF e.kind = "h" THEN s ELSE x
                       IN IF e.kind = "error" THEN Len(e.obs[r]) # 1 \/ ~Is(e.obs[r][1], SumTo(f, Len(s)))
                          ELSE Len(e.obs[r]) # Len(w) \/ \E h \in DOMAIN w : ~Is(e.obs[r][h], Md(e.scale) * w[h])
    IN {k \in {"harness-input-out-of-scope", "cell-data"} :
       \/ k = "harness-input-out-of-scope" /\ ~Geo(e)
       \/ k = "cell-data" /\ (Len(e.obs) # Len(e.conn)
                              \/ \E r \in DOMAIN e.obs : (\A j \in DOMAIN e.cells : RangeOf(e.cells[j]) # RangeOf(e.conn[r])) \/ bad(r))}
\* the mesh of a result file: all points in place, the shown cells once each
MeshVerdict(e) ==
    {k \in {"points", "shown-cells"} :
       \/ k = "points" /\ e.points # e.P
       \/ k = "shown-cells" /\ (\/ {RangeOf(e.conn[r]) : r \in DOMAIN e.conn} # {RangeOf(e.cells[j]) : j \in On(e)}
                                \/ Len(e.conn) # Cardinality(On(e)))}
\* the geometric mesh written by dimension
FileVerdict(e) ==
    LET want == Declared(e.decl, e.d)
        got == {<<RangeOf(e.conn[r]), e.phys[r]>> : r \in DOMAIN e.conn}
    IN {k \in {"file-exists", "points", "declared-cells", "entity-tags"} :
       \/ k = "file-exists" /\ (e.exists # (want # {}))
       \/ k = "points" /\ e.exists /\ e.points # e.P
       \/ k = "declared-cells" /\ e.exists /\ (got # want \/ Len(e.conn) # Cardinality(want) \/ Len(e.phys) # Len(e.conn))
       \/ k = "entity-tags" /\ e.exists /\ (\/ Len(e.lib) # Len(e.conn)
                                            \/ \E r \in DOMAIN e.conn : RangeOf(e.lib[r]) # RangeOf(e.conn[r]))}
DumpVerdict(e) ==
    LET cells == e.cells
        K == ClosureOf({RangeOf(e.decl[j].nodes) : j \in DOMAIN e.decl}) \union {{v - 1} : v \in DOMAIN e.P}
        tag(s) == IF \E j \in DOMAIN e.decl : RangeOf(e.decl[j].nodes) = s
                  THEN e.decl[CHOOSE j \in DOMAIN e.decl : RangeOf(e.decl[j].nodes) = s].tag ELSE NoTag
        dims == {Len(e.decl[j].nodes) - 1 : j \in DOMAIN e.decl}
        top == CHOOSE d \in dims : \A x \in dims : x <= d
        low == CHOOSE d \in dims : \A x \in dims : d <= x
    IN IF ~ShapeOK(cells) \/ ~SubShapeOK(cells) THEN {"listed-cells"}
       ELSE {k \in {"points", "listed-cells", "listed-sub-cells", "listed-tags", "dimensions"} :
       \/ k = "points" /\ e.points # e.P
       \/ k = "listed-cells" /\ (Supports(cells) # K \/ ~UniqueOK(cells) \/ ~IdsDense(cells) \/ e.count # Len(cells))
       \/ k = "listed-sub-cells" /\ ~SubRefOK(cells)
       \/ k = "listed-tags" /\ \E j \in DOMAIN cells : cells[j].mat # tag(RangeOf(cells[j].nodes))
       \/ k = "dimensions" /\ e.dims # <<0, top, low, top>>}
Verdict(e) == IF e.err # "" THEN {"computes"}
              ELSE CASE e.ev = "point" -> PointVerdict(e) [] e.ev = "cell" -> CellVerdict(e) [] e.ev = "mesh" -> MeshVerdict(e)
                     [] e.ev = "file" -> FileVerdict(e) [] OTHER -> DumpVerdict(e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l>>
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
=============================================================================
