---------------------------- MODULE ShapesTrace ----------------------------
(* Verdicts on histories of shapes, on the graph and the queries of domains,*)
(* on their renumbering and on the paths of wires.                          *)
EXTENDS Shapes, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
Node(r) == [d |-> r.d, t |-> r.t, f |-> r.f, a |-> r.a, c |-> r.c, b |-> r.b, i |-> r.i, p |-> r.p]
Heap(x) == [k \in DOMAIN x.heap |-> Node(x.heap[k])]
View(h) == [k \in DOMAIN h |-> [h[k] EXCEPT !.i = Shown(h, k)]]
\* --- histories -----------------------------------------------------------------------
After(h, o) ==
    CASE o.op = "tag" -> [h EXCEPT ![o.s].t = o.val]
      [] o.op = "phys" -> [h EXCEPT ![o.s].f = o.val]
      [] o.op = "active" -> [h EXCEPT ![o.s].a = ~@]
      [] o.op = "place" -> [h EXCEPT ![o.s].p = o.val]
      [] o.op = "bound" -> IF Admits(h, o.s, o.ms) THEN SetBoundary(h, o.s, o.ms) ELSE h
      [] o.op = "imm" -> IF Admits(h, o.s, o.ms) THEN SetImmersed(h, o.s, o.ms) ELSE h
      [] o.op = "assign" -> IF Assignable(h, o.s, o.val) THEN Assign(h, o.s, o.val) ELSE h
      [] OTHER -> h
Answer(h, o) ==
    CASE o.op \in {"bound", "imm"} -> IF Admits(h, o.s, o.ms) THEN "ok" ELSE "refused"
      [] o.op = "assign" -> IF Assignable(h, o.s, o.val) THEN "ok" ELSE "refused"
      [] o.op = "eq" -> IF Same(h, o.s, o.val) THEN "yes" ELSE "no"
      [] o.op = "ne" -> IF Same(h, o.s, o.val) THEN "no" ELSE "yes"
      [] o.op = "in" -> IF Member(h, o.s, o.val) THEN "yes" ELSE "no"
      [] OTHER -> "ok"
RECURSIVE Replay(_, _, _)
Replay(x, k, h) ==
    IF k > Len(x.ops) THEN {}
    ELSE LET o == x.ops[k]
             g == TLCEval(After(h, o))
             v == View(g)
             bad == {n \in {"answer-" \o o.op, "state-" \o o.op} :
                       \/ n = "answer-" \o o.op /\ o.ans # Answer(h, o)
                       \/ n = "state-" \o o.op /\ ~(Len(o.after) = Len(g) /\ \A s \in DOMAIN g : Node(o.after[s]) = v[s])} IN
         IF bad # {} THEN bad ELSE Replay(x, k + 1, g)
HistoryVerdict(x) == Replay(x, 1, Heap(x))
\* --- domains ------------------------------------------------------------------------------
Listed(x) == UNION {Range(x.lists[k]) : k \in DOMAIN x.lists}
SetMax(S) == CHOOSE m \in S : \A u \in S : u <= m
Pairs4(g) == {<< <<g[k][1], g[k][2]>>, <<g[k][3], g[k][4]>> >> : k \in DOMAIN g}
DomainVerdict(x) ==
    LET h == Heap(x)
        L == Listed(x)
        tagged(f) == SelectSeq(x.order, LAMBDA s : h[s].f = f)
        down == UNION {Below(h, s) : s \in Range(x.lists[x.dim + 1])} IN
    {n \in {"graph", "graph-lower", "nodes", "max-tag", "max-physical-tag", "with-tag", "vertex-at", "listing"} :
       \/ n = "graph" /\ Pairs4(x.graph) # Graph(h, x.dim, Range(x.lists[x.dim + 1]))
       \/ n = "graph-lower" /\ x.low >= 1 /\ Pairs4(x.lower) # Graph(h, x.dim, Range(x.lists[x.low + 1]))
       \/ n = "nodes" /\ x.low = 0 /\ {<<x.nodes[k][1], x.nodes[k][2]>> : k \in DOMAIN x.nodes} # {Index(h, x.dim, s) : s \in Range(x.lists[1])}
       \/ n = "listing" /\ x.order # FoldLeft(LAMBDA a, b : a \o b, <<>>, x.lists)
       \/ n = "max-tag" /\ x.maxtag # SetMax({h[s].t : s \in L})
       \/ n = "max-physical-tag" /\ \E s \in L : h[s].f # 0 /\ x.maxphys # SetMax({h[u].f : u \in {u \in L : h[u].f # 0}})
       \/ n = "with-tag" /\ \E k \in DOMAIN x.asked : x.withtag[k] # tagged(x.asked[k])
       \/ n = "vertex-at" /\ \E k \in DOMAIN x.places : LET S == {s \in Range(x.lists[1]) : h[s].p = x.places[k]} IN
             IF S = {} THEN x.found[k] # 0 ELSE x.found[k] \notin S}
\* renumbering: only the tags of the listed shapes and of those immersed in them change, and they become distinct
RetagVerdict(x) ==
    LET h == Heap(x)
        g == [k \in DOMAIN x.after |-> Node(x.after[k])]
        L == Listed(x)
        touched == L \cup UNION {Range(Shown(h, s)) : s \in L} IN
    {n \in {"renumbered-distinct", "renumbered-rest"} :
       \/ n = "renumbered-distinct" /\ ~Numbered(g, touched)
       \/ n = "renumbered-rest" /\ \E s \in DOMAIN h : [g[s] EXCEPT !.t = h[s].t] # View(h)[s] \/ (s \notin touched /\ g[s].t # h[s].t)}
TypesVerdict(x) == IF Len(x.got) = Len(x.of) /\ \A k \in DOMAIN x.of : x.got[k] = x.heap[x.of[k]].d THEN {} ELSE {"dimension-by-type"}
\* vertices that the graph does not know are dropped
DropVerdict(x) ==
    LET h == Heap(x)
        known == {e[2] : e \in Graph(h, x.dim, Range(x.lists[x.dim + 1]))} IN
    IF x.kept = SelectSeq(x.lists[1], LAMBDA s : Index(h, x.dim, s) \in known) THEN {} ELSE {"dropped-vertices"}
\* --- wires along a path ---------------------------------------------------------------------
PathVerdict(x) ==
    LET h == Heap(x)
        q == Shown(h, x.s) IN
    {n \in {"path-signs", "path-vertices", "path-ends"} :
       \/ n = "path-signs" /\ ~(x.shown = x.path /\ IsPath(h, x.path, x.signs))
       \/ n = "path-vertices" /\ ~(Len(x.verts) = Len(x.path) /\ \A k \in DOMAIN x.path : x.verts[k] = StartV(h, x.path[k], x.signs[k]))
       \/ n = "path-ends" /\ ~(Len(x.ends) = 2 /\ x.ends[1] = h[StartV(h, x.path[1], x.signs[1])].p
                                /\ x.ends[2] = h[StopV(h, x.path[Len(x.path)], x.signs[Len(x.path)])].p)}
Verdict(x) ==
    IF x.err # "" THEN {"answers"}
    ELSE CASE x.ev = "history" -> HistoryVerdict(x)
           [] x.ev = "domain" -> DomainVerdict(x)
           [] x.ev = "retag" -> RetagVerdict(x)
           [] x.ev = "types" -> TypesVerdict(x)
           [] x.ev = "drop" -> DropVerdict(x)
           [] x.ev = "path" -> PathVerdict(x)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
