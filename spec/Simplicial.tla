---------------------------- MODULE Simplicial ----------------------------
(* Vocabulary shared by the mesh specifications.                           *)
(* An abstract simplex is a finite set of node tags; an *observed* mesh is *)
(* a sequence of cell records  [id, d, nodes, sub, mat]  as projected from *)
(* the implementation: nodes is a sequence of node tags, sub is a sequence *)
(* (position e+1 holds the ids of the sub-cells of dimension e) and mat is *)
(* the physical tag or NoTag.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoTag == -1

RangeOf(s) == {s[i] : i \in DOMAIN s}

\* reference element of the simplex of dimension d: for every e < d the
\* (1-based) local vertices of the e-dimensional sub-entities, in order
RefSub(d, e) ==
  CASE e = 0 -> [i \in 1..(d + 1) |-> <<i>>]
    [] d = e -> << [i \in 1..(d + 1) |-> i] >>
    [] d = 2 /\ e = 1 -> << <<2,3>>, <<1,3>>, <<1,2>> >>
    [] d = 3 /\ e = 1 -> << <<3,4>>, <<2,4>>, <<2,3>>, <<1,4>>, <<1,3>>, <<1,2>> >>
    [] d = 3 /\ e = 2 -> << <<2,3,4>>, <<1,3,4>>, <<1,2,4>>, <<1,2,3>> >>

NumSub(d, e) == Len(RefSub(d, e))

\* all non-empty faces of a simplex (including itself)
Faces(s) == SUBSET s \ {{}}
ClosureOf(S) == UNION {Faces(s) : s \in S}

\* a family of simplices is a complex iff it is closed under faces
IsComplex(K) == \A s \in K : Faces(s) \subseteq K

\* --- observed meshes ---------------------------------------------------
IdsDense(cells) == \A i \in DOMAIN cells : cells[i].id = i - 1
ShapeOK(cells) == \A i \in DOMAIN cells :
    LET c == cells[i] IN
      /\ c.d \in 0..3
      /\ Len(c.nodes) = c.d + 1
      /\ Cardinality(RangeOf(c.nodes)) = c.d + 1
SubShapeOK(cells) == \A i \in DOMAIN cells :
    LET c == cells[i] IN
      /\ Len(c.sub) = c.d + 1
      /\ \A e \in 0..c.d : /\ Len(c.sub[e + 1]) = NumSub(c.d, e)
                           /\ \A k \in DOMAIN c.sub[e + 1] : c.sub[e + 1][k] \in 0..(Len(cells) - 1)
\* the k-th listed sub-cell of dimension e is the k-th reference sub-entity
SubRefOK(cells) == \A i \in DOMAIN cells :
    LET c == cells[i] IN
      \A e \in 0..c.d : \A k \in DOMAIN c.sub[e + 1] :
        LET s == cells[c.sub[e + 1][k] + 1]
            r == RefSub(c.d, e)[k]
        IN /\ s.d = e
           /\ RangeOf(s.nodes) = {c.nodes[r[j]] : j \in DOMAIN r}
SelfOK(cells) == \A i \in DOMAIN cells :
    LET c == cells[i] IN c.sub[c.d + 1] = <<c.id>>
Supports(cells) == {RangeOf(cells[i].nodes) : i \in DOMAIN cells}
UniqueOK(cells) == Cardinality(Supports(cells)) = Len(cells)
===========================================================================
