--------------------------- MODULE FractureCut ----------------------------
(* Cutting the conformity of a triangulation along embedded fractures.     *)
(* State: for every triangle corner the copy of the vertex it refers to,   *)
(* for every triangle side the copy of the edge, for every edge copy the   *)
(* vertex copies at its ends.  A copy is <<original, history of sides>>.   *)
(* Fractures are cut one after another, in any order.                      *)
EXTENDS Plane, TLC

\* ---- the triangulation (constants of an instance) ----------------------
CONSTANTS NX, NY, Fractures(_)
\* vertex (i, j) on a sheared grid, squares split along the (1,1) diagonal
V == (0..NX) \X (0..NY)
Pos(v) == <<3 * v[1] + v[2], 2 * v[2]>>
Tris == UNION {{ {<<i, j>>, <<i + 1, j>>, <<i + 1, j + 1>>}, {<<i, j>>, <<i + 1, j + 1>>, <<i, j + 1>>} } : i \in 0..(NX - 1), j \in 0..(NY - 1)}
EdgesOf(t) == {e \in SUBSET t : Cardinality(e) = 2}
Edges == UNION {EdgesOf(t) : t \in Tris}
TrisAt(v) == {t \in Tris : v \in t}

\* ---- fractures: straight chains, given by end vertices ------------------
VARIABLES corner, side, ends, todo, tips

CIRange(a, b) == {k \in (IF a < b THEN a ELSE b)..(IF a < b THEN b ELSE a) : TRUE}
\* vertices and edges of the straight chain from f[1] to f[2]
Chain0(f) == {v \in V : Cross2(Pos(f[1]), Pos(f[2]), Pos(v)) = 0 /\ v[1] \in CIRange(f[1][1], f[2][1]) /\ v[2] \in CIRange(f[1][2], f[2][2])}
FEdges0(f) == {e \in Edges : e \subseteq Chain0(f)}
Ends == {f \in V \X V : f[1] # f[2]}
ChainTab == [f \in Ends |-> Chain0(f)]
FEdgeTab == [f \in Ends |-> FEdges0(f)]
Chain(f) == ChainTab[f]
FEdges(f) == FEdgeTab[f]
IsChain(f) == Cardinality(FEdges(f)) = Cardinality(Chain(f)) - 1 /\ FEdges(f) # {}
OnBoundary(v) == v[1] \in {0, NX} \/ v[2] \in {0, NY}
TrisOf(e) == {t \in Tris : e \subseteq t}
Interior(f) == \A e \in FEdges(f) : Cardinality(TrisOf(e)) = 2

Pts(t) == LET a == CHOOSE x \in t : TRUE
              b == CHOOSE x \in t \ {a} : TRUE
              c == CHOOSE x \in t \ {a, b} : TRUE
          IN <<Pos(a), Pos(b), Pos(c)>>
SideT(f, t) == IF TriSide(Pos(f[1]), Pos(f[2]), Pts(t)[1], Pts(t)[2], Pts(t)[3]) > 0 THEN "p" ELSE "n"
SideE(f, e) == LET a == CHOOSE x \in e : TRUE
                   b == CHOOSE x \in e \ {a} : TRUE
               IN IF SegSide(Pos(f[1]), Pos(f[2]), Pos(a), Pos(b)) > 0 THEN "p" ELSE "n"

\* ---- transitions --------------------------------------------------------
Cut(f) ==
    LET split == Chain(f) \ tips[f]
        fe == FEdges(f)
        App(cp, s) == <<cp[1], Append(cp[2], s)>>
    IN /\ corner' = [x \in DOMAIN corner |-> IF x[2] \in split THEN App(corner[x], SideT(f, x[1])) ELSE corner[x]]
       /\ side' = [x \in DOMAIN side |-> IF x[2] \in fe THEN App(side[x], SideT(f, x[1])) ELSE side[x]]
       \* ends: edge copy -> [vertex -> vertex copy]; the copies of a cut edge are born here
       /\ LET old == DOMAIN ends
              born == {<<e, <<s>>>> : e \in fe, s \in {"p", "n"}}
              Move(c, v, s) == IF v \in split THEN App(c, s) ELSE c
          IN ends' = [x \in old \cup born |->
                 IF x \in born THEN [v \in x[1] |-> Move(ends[<<x[1], <<>>>>][v], v, x[2][1])]
                 ELSE IF x[1] \in fe /\ x[2] = <<>> THEN ends[x]          \* the original fracture edge keeps its vertices
                 ELSE [v \in x[1] |-> Move(ends[x][v], v, SideE(f, x[1]))]]
       /\ todo' = todo \ {f}
       /\ UNCHANGED tips

Crossable(f, g) == \* two fractures may only share vertices that are interior to both
    LET common == Chain(f) \cap Chain(g) IN
      /\ FEdges(f) \cap FEdges(g) = {}
      /\ common \cap {f[1], f[2], g[1], g[2]} = {}
      /\ Cardinality(common) <= 1

Candidates == {f \in V \X V : f[1] # f[2] /\ IsChain(f) /\ Interior(f)}

Init ==
    /\ corner = [x \in {y \in Tris \X V : y[2] \in y[1]} |-> <<x[2], <<>>>>]
    /\ side = [x \in {y \in Tris \X Edges : y[2] \subseteq y[1]} |-> <<x[2], <<>>>>]
    /\ ends = [x \in {<<e, <<>>>> : e \in Edges} |-> [v \in x[1] |-> <<v, <<>>>>]]
    /\ \E F \in Fractures(Candidates) :
         /\ \A f, g \in F : f # g => Crossable(f, g)
         /\ todo = F
         \* an end inside the domain is a tip; an end on the boundary may be one
         /\ \E T \in SUBSET {v \in UNION {{f[1], f[2]} : f \in F} : OnBoundary(v)} :
              tips = [f \in F |-> {v \in {f[1], f[2]} : ~OnBoundary(v) \/ v \in T}]
Next == \E f \in todo : Cut(f)
Spec == Init /\ [][Next]_<<corner, side, ends, todo, tips>>

\* ---- properties -----------------------------------------------------------
CutEdges == UNION {FEdges(f) : f \in DOMAIN tips}
\* components of the star of v when one may not cross a fracture
RECURSIVE Grow(_, _, _)
Grow(S, v, cut) ==
    LET more == {t \in TrisAt(v) : \E s \in S : Cardinality(s \cap t) = 2 /\ v \in (s \cap t) /\ (s \cap t) \notin cut}
    IN IF more \subseteq S THEN S ELSE Grow(S \cup more, v, cut)
Component(t, v, cut) == Grow({t}, v, cut)
SplitAt(v) == \E f \in DOMAIN tips : v \in Chain(f) /\ v \notin tips[f]
Done == todo = {}
Fans == Done => \A v \in V : \A t, u \in TrisAt(v) :
           (corner[<<t, v>>] = corner[<<u, v>>]) <=> (~SplitAt(v) \/ u \in Component(t, v, CutEdges))
SidesApart == Done => \A e \in Edges : \A t, u \in TrisOf(e) :
           t # u => ((side[<<t, e>>] = side[<<u, e>>]) <=> e \notin CutEdges)
EndsMatch == Done => \A x \in DOMAIN side : \A v \in x[2] : ends[side[x]][v] = corner[<<x[1], v>>]
===========================================================================
