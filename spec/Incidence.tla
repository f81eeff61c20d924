---------------------------- MODULE Incidence -----------------------------
(* Incidence graphs and topological queries of a mesh.                     *)
(* State: the loaded mesh (support and tag of every cell), the incidence   *)
(* relation derived from the supports alone, and a topology view: the      *)
(* dimension and the selection (set of physical tags, or everything) it    *)
(* was last built for.                                                     *)
EXTENDS Simplicial

VARIABLES supp,  \* cell id -> set of node tags
          mat,   \* cell id -> physical tag or NoTag
          inc,   \* {<<c, s>> : s is a face of c}  (reflexive)
          view   \* [dim, all, tags] of the last built topology view

ivars == <<supp, mat, inc, view>>
NoView == [dim |-> -1, all |-> FALSE, tags |-> {}]

DimOf(c) == Cardinality(supp[c]) - 1
CellsOf(d) == {c \in DOMAIN supp : DimOf(c) = d}
Incident(sp) == {p \in (DOMAIN sp) \X (DOMAIN sp) : sp[p[2]] \subseteq sp[p[1]]}

Load(sp, mt) ==
    /\ supp' = sp /\ mat' = mt
    /\ inc' = Incident(sp)
    /\ view' = NoView

BuildView(d, all, tags) == view' = [dim |-> d, all |-> all, tags |-> tags] /\ UNCHANGED <<supp, mat, inc>>

\* cells of dimension d selected by a physical-tag filter
Selected(d, all, tags) == {c \in CellsOf(d) : all \/ mat[c] \in tags}
\* the incidence graph from dimension d to dimension e over a set of cells
GraphOver(S, e) == {p \in inc : p[1] \in S /\ DimOf(p[2]) = e}
ViewCells == Selected(view.dim, view.all, view.tags)
ViewMap(e) == GraphOver(ViewCells, e)
ViewEntities(e) == {p[2] : p \in ViewMap(e)}
Higher(s) == {p[1] : p \in {q \in ViewMap(DimOf(s)) : q[2] = s}}
Facets(c, k) == {p[2] : p \in {q \in inc : q[1] = c /\ DimOf(q[2]) = DimOf(c) - k}}

\* ---- design instance: all complexes on a few nodes ---------------------
CONSTANTS NodeSet, TagSet
Complexes == {ClosureOf(S) : S \in {X \in SUBSET (SUBSET NodeSet \ {{}}) : Cardinality(X) \in 1..2}}
Enum(S) == CHOOSE f \in [0..(Cardinality(S) - 1) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
Index(S) == LET q == SeqOfSet(S) IN [i \in 0..(Len(q) - 1) |-> q[i + 1]]

Init == supp = <<>> /\ mat = <<>> /\ inc = {} /\ view = NoView
Next == \/ /\ supp = <<>>
           /\ \E K \in Complexes, t \in TagSet \cup {NoTag} :
                LET sp == Index(K) IN
                \E tagged \in SUBSET (DOMAIN sp) :
                  Cardinality(tagged) <= 2 /\ Load(sp, [c \in DOMAIN sp |-> IF c \in tagged THEN t ELSE NoTag])
        \/ /\ supp # <<>>
           /\ \E d \in 0..2, all \in BOOLEAN, tags \in SUBSET TagSet : BuildView(d, all, tags)
Spec == Init /\ [][Next]_ivars

\* ---- properties of the design ------------------------------------------
ViewClosed == \* entities of a view are exactly the faces of the selected cells
    \A e \in 0..view.dim : ViewEntities(e) = {c \in CellsOf(e) : \E x \in ViewCells : supp[c] \subseteq supp[x]}
Converse == \A e \in 0..view.dim : \A s \in ViewEntities(e) :
               /\ Higher(s) # {}
               /\ \A c \in Higher(s) : <<c, s>> \in ViewMap(e)
CountsOK == \A c \in DOMAIN supp : \A k \in 0..DimOf(c) : Cardinality(Facets(c, k)) = NumSub(DimOf(c), DimOf(c) - k)
TopOnce == view.dim >= 0 => ViewMap(view.dim) = {<<c, c>> : c \in ViewCells}
===========================================================================
