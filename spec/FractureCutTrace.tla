------------------------- MODULE FractureCutTrace -------------------------
(* Verdict on observed fracture cuts: the mesh before, the fractures and   *)
(* the mesh after.  kinds:                                                 *)
(*   "network"  skins tagged 10*t+1 / 10*t-1                               *)
(*   "embed"    skins tagged 1000*t+1 / 1000*t-1; the skin edges list      *)
(*              themselves and the edge they come from                     *)
(*   "line"     clones tagged by the given map                             *)
(* Fracture record: [tag, a, b, edges (cell ids), ptag, ntag, vtag]        *)
(* tipmat: per fracture the tag marking a vertex that is not split.        *)
EXTENDS Simplicial, Plane, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)

Verdict(e) ==
    LET B == e.before
        A == e.after
        pb == e.points
        pa == e.newpoints
        NB == Len(B)
        Old == 1..NB
        New == (NB + 1)..Len(A)
        BId(k) == B[k + 1]
        AId(k) == A[k + 1]
        Tri == {k \in Old : B[k].d = 2}
        FR == e.fr
        FEdge(f) == {FR[f].edges[i] : i \in DOMAIN FR[f].edges}      \* ids
        Fs == DOMAIN FR
        AllF == UNION {FEdge(f) : f \in Fs}
        VertsOf(f) == UNION {RangeOf(BId(x).sub[1]) : x \in FEdge(f)}    \* vertex cell ids
        IsTip(f, v) == BId(v).mat = FR[f].tipmat
        SplitBy(f, v) == v \in VertsOf(f) /\ ~IsTip(f, v)
        SplitVs == {v \in UNION {VertsOf(f) : f \in Fs} : \E f \in Fs : SplitBy(f, v)}
        Crossing == {v \in SplitVs : \E f, g \in Fs : f # g /\ v \in VertsOf(f) /\ v \in VertsOf(g)}
        TriAt(v) == {t \in Tri : v \in RangeOf(B[t].sub[1])}
        \* triangles around v, not stepping across fracture edges
        Link(t, u) == t # u /\ \E x \in RangeOf(B[t].sub[2]) \cap RangeOf(B[u].sub[2]) : x \notin AllF
        LinkAt(t, u, v) == t # u /\ \E x \in RangeOf(B[t].sub[2]) \cap RangeOf(B[u].sub[2]) : x \notin AllF /\ v \in RangeOf(BId(x).sub[1])
        Comp(t, v) == LET RECURSIVE grow(_)
                          grow(S) == LET m == {u \in TriAt(v) : \E s \in S : LinkAt(s, u, v)}
                                     IN IF m \subseteq S THEN S ELSE grow(S \cup m)
                      IN grow({t})
        Pos(t, v) == CHOOSE i \in 1..3 : B[t].sub[1][i] = v
        P(n) == pb[n + 1]
        SideOf(f, t) == TriSide(FR[f].a, FR[f].b, P(B[t].nodes[1]), P(B[t].nodes[2]), P(B[t].nodes[3])) > 0
        Coords(c, pts) == [i \in DOMAIN c.nodes |-> pts[c.nodes[i] + 1]]
        Parents(x) == {t \in Tri : x \in RangeOf(A[t].sub[2])}
        WellFormed ==
            /\ Len(A) >= NB
            /\ \A i \in DOMAIN A : /\ A[i].d \in 0..2 /\ Len(A[i].nodes) = A[i].d + 1 /\ Len(A[i].sub) = A[i].d + 1
                                   /\ \A j \in DOMAIN A[i].nodes : A[i].nodes[j] \in 0..(Len(pa) - 1)
                                   /\ \A d \in DOMAIN A[i].sub : \A j \in DOMAIN A[i].sub[d] : A[i].sub[d][j] \in 0..(Len(A) - 1)
            /\ \A k \in Old : A[k].d = B[k].d
        SkinOf(f, x, positive) == \* the skin seen by the triangle on that side of fracture edge x
            LET t == CHOOSE u \in Tri : x \in RangeOf(B[u].sub[2]) /\ SideOf(f, u) = positive
                k == CHOOSE i \in 1..3 : B[t].sub[2][i] = x
            IN A[t].sub[2][k]
        NewVerts == {A[t].sub[1][i] : t \in Tri, i \in 1..3} \cap {k - 1 : k \in New}
        OwnerOf(y) == \* original vertex a new vertex replicates
            LET p == CHOOSE q \in Tri \X (1..3) : A[q[1]].sub[1][q[2]] = y IN B[p[1]].sub[1][p[2]]
    IN
    IF e.err # "" THEN {"cut-completes"}
    ELSE IF ~WellFormed THEN {"cells-well-formed"}
    ELSE LET early == {n \in {"ids-dense", "points-kept", "cells-keep-geometry", "cells-keep-tags"} :
            \/ n = "ids-dense" /\ ~IdsDense(A)
            \/ n = "points-kept" /\ ~(Len(pa) >= Len(pb) /\ SubSeq(pa, 1, Len(pb)) = pb)
            \/ n = "cells-keep-geometry" /\ \E k \in Old : Coords(A[k], pa) # Coords(B[k], pb)
            \/ n = "cells-keep-tags" /\ \E k \in Old : A[k].mat # B[k].mat }
    IN IF early # {} THEN early
    ELSE LET shape == {n \in {"three-faces-each", "corners-name-their-node"} :
            \/ n = "three-faces-each" /\ \E k \in DOMAIN A :
                     (A[k].d = 2 /\ (Len(A[k].sub[1]) # 3 \/ Len(A[k].sub[2]) # 3)) \/ (A[k].d = 1 /\ Len(A[k].sub[1]) # 2) \/ Len(A[k].sub[1]) = 0
            \/ n = "corners-name-their-node" /\ \E k \in DOMAIN A : A[k].d > 0 /\ \E i \in DOMAIN A[k].sub[1] :
                     i \in DOMAIN A[k].nodes /\ AId(A[k].sub[1][i]).nodes # <<A[k].nodes[i]>> }
    IN IF shape # {} THEN shape
    ELSE LET topo == {n \in {"faces-in-order", "old-fracture-edges-released", "two-skins-with-tags", "vertex-fans", "other-edges-untouched",
                  "new-edges-are-skins", "new-vertex-tags", "old-fracture-edges-keep-vertices", "no-spurious-cells", "self-listed"} :
            \/ n = "self-listed" /\ \E k \in DOMAIN A : A[k].id \notin RangeOf(A[k].sub[A[k].d + 1])
            \/ n = "faces-in-order" /\ \E t \in Tri : \E k \in 1..3 :
                   LET r == RefSub(2, 1)[k] IN RangeOf(AId(A[t].sub[2][k]).nodes) # {A[t].nodes[r[1]], A[t].nodes[r[2]]}
            \/ n = "old-fracture-edges-released" /\ \E x \in AllF : Parents(x) # {}
            \/ n = "two-skins-with-tags" /\ \E f \in Fs : \E x \in FEdge(f) :
                   LET sp == SkinOf(f, x, TRUE)
                       sn == SkinOf(f, x, FALSE)
                   IN \/ sp = sn
                      \/ sp < NB \/ sn < NB
                      \/ Cardinality(Parents(sp)) # 1 \/ Cardinality(Parents(sn)) # 1
                      \/ AId(sp).mat # FR[f].ptag \/ AId(sn).mat # FR[f].ntag
                      \/ e.kind = "embed" /\ ({sp, x} # RangeOf(AId(sp).sub[2]) \/ {sn, x} # RangeOf(AId(sn).sub[2]))
                      \/ e.kind # "embed" /\ (<<sp>> # AId(sp).sub[2] \/ <<sn>> # AId(sn).sub[2])
            \/ n = "vertex-fans" /\ \E t \in Tri : \E i \in 1..3 :
                   LET v == B[t].sub[1][i] IN
                   IF v \in SplitVs
                     THEN \/ A[t].sub[1][i] < NB
                          \/ \E u \in TriAt(v) : (A[u].sub[1][Pos(u, v)] = A[t].sub[1][i]) # (u \in Comp(t, v))
                     ELSE A[t].sub[1][i] # v
            \/ n = "other-edges-untouched" /\ \E t \in Tri : \E k \in 1..3 : B[t].sub[2][k] \notin AllF /\ A[t].sub[2][k] # B[t].sub[2][k]
            \/ n = "new-edges-are-skins" /\ (\/ Cardinality({k \in New : A[k].d = 1}) # 2 * Cardinality(AllF)
                                             \/ \E k \in New : A[k].d = 2)
            \/ n = "new-vertex-tags" /\ \E y \in NewVerts :
                   LET v == OwnerOf(y)
                       t == CHOOSE u \in TriAt(v) : y \in RangeOf(A[u].sub[1])
                   IN v \notin Crossing /\
                      LET f == CHOOSE g \in Fs : SplitBy(g, v) IN
                      IF e.kind = "line" THEN AId(y).mat # (IF BId(v).mat = e.pointtag THEN e.pointclones ELSE BId(v).mat)
                      ELSE AId(y).mat # (IF BId(v).mat = NoTag THEN NoTag ELSE IF SideOf(f, t) THEN FR[f].ptag ELSE FR[f].ntag)
            \/ n = "old-fracture-edges-keep-vertices" /\ \E x \in AllF : \E i \in 1..2 :
                   BId(x).sub[1][i] \notin Crossing /\ AId(x).sub[1][i] # BId(x).sub[1][i]
            \/ n = "no-spurious-cells" /\ Crossing = {} /\ Cardinality(New) # 2 * Cardinality(AllF) + 2 * Cardinality(SplitVs) }
    IN topo \cup {n \in {"returned-pairs", "skins-closed"} : topo = {} /\
            (\/ n = "returned-pairs" /\ \E f \in Fs : \E x \in FEdge(f) :
                   ~\E i \in DOMAIN e.pairs : e.pairs[i] = <<x, SkinOf(f, x, TRUE), SkinOf(f, x, FALSE)>>
             \/ n = "skins-closed" /\ e.closed \notin {"yes", "n/a"}) }

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
