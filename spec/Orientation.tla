--------------------------- MODULE Orientation ----------------------------
(* How the basis functions attached to a shared edge or face are brought   *)
(* to one common order, whatever the local vertex order of the cells.      *)
(* A face function j sits next to local vertex j of the face; the design   *)
(* rotates and reflects until function j sits next to the vertex with the  *)
(* j-th smallest node tag.  Then two cells that meet at the face number    *)
(* coinciding functions alike, and sign changes agree.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
SortedSeq(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
Perms(S) == {q \in [1..Cardinality(S) -> S] : Range(q) = S}

\* one rotation and the reflection of the three functions of a face, as index maps (new position -> old position)
Rot(j) == ((j + 1) % 3) + 1
Refl(j) == IF j = 1 THEN 1 ELSE 5 - j
RECURSIVE Iter(_, _)
Iter(n, j) == IF n = 0 THEN j ELSE Iter(n - 1, Rot(j))

\* the number of rotations and reflections for the local order f (a triple of tags)
Case(f) ==
    LET s == SortedSeq(Range(f))
        pos == CHOOSE k \in 1..6 : << <<s[1],s[2],s[3]>>, <<s[1],s[3],s[2]>>, <<s[2],s[1],s[3]>>,
                                      <<s[2],s[3],s[1]>>, <<s[3],s[1],s[2]>>, <<s[3],s[2],s[1]>> >>[k] = <<f[1],f[2],f[3]>>
    IN <<[rot |-> 0, refl |-> 0], [rot |-> 0, refl |-> 1], [rot |-> 2, refl |-> 1],
         [rot |-> 1, refl |-> 0], [rot |-> 2, refl |-> 0], [rot |-> 1, refl |-> 1]>>[pos]
\* vertex next to function j after the transformation
FaceVertex(f, j) == LET c == Case(f) IN f[Iter(c.rot, IF c.refl = 1 THEN Refl(j) ELSE j)]
EdgeVertex(e, j) == IF e[1] < e[2] THEN e[j] ELSE e[3 - j]
\* a rotation-even number of swaps keeps a circulation-type function, an odd number flips its sign
FaceSign(f) == IF Case(f).refl = 1 THEN -1 ELSE 1
EdgeSign(e) == IF e[1] < e[2] THEN 1 ELSE -1
Parity(f) == IF Cardinality({p \in {<<1,2>>, <<1,3>>, <<2,3>>} : f[p[1]] > f[p[2]]}) % 2 = 1 THEN -1 ELSE 1

---------------------------------------------------------------------------
\* two tetrahedra with the common face Common, in every pair of local orders
CONSTANTS Common, Apexes
VARIABLES left, right
Locals(apex) == Perms(Common \cup {apex})
Init == /\ \E q \in Locals(CHOOSE a \in Apexes : TRUE) : left = q
        /\ right = <<>>
Next == /\ right = <<>>
        /\ \E a \in Apexes : right' \in Locals(a)
        /\ UNCHANGED left
Spec == Init /\ [][Next]_<<left, right>>
\* the common face as the cell lists it: local order restricted to the face
FaceOf(q) == SelectSeq(q, LAMBDA v : v \in Common)
EdgeOf(q, e) == SelectSeq(q, LAMBDA v : v \in e)
CommonEdges == {e \in SUBSET Common : Cardinality(e) = 2}
AgreeFace == right # <<>> => \A j \in 1..3 : FaceVertex(FaceOf(left), j) = FaceVertex(FaceOf(right), j)
AgreeEdges == right # <<>> => \A e \in CommonEdges, j \in 1..2 : EdgeVertex(EdgeOf(left, e), j) = EdgeVertex(EdgeOf(right, e), j)
\* flux functions: the sign reflects the parity of the local order against the tags
SignIsParity == FaceSign(FaceOf(left)) = Parity(FaceOf(left))
===========================================================================
