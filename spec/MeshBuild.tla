---------------------------- MODULE MeshBuild -----------------------------
(* Construction of a conforming mesh from declared simplices.              *)
(* State: the complex K built so far and the physical tag of each declared *)
(* simplex.  One action: Declare(s, t).                                    *)
EXTENDS Simplicial

CONSTANTS NodeSet, TagSet, MaxDeclared

VARIABLES K, tag, declared

Init == K = {} /\ tag = <<>> /\ declared = {}

\* declaring simplex s with physical tag t inserts its closure and tags it
Declare(s, t) ==
    /\ s \notin declared
    /\ K' = K \cup Faces(s)
    /\ tag' = (s :> t) @@ tag
    /\ declared' = declared \cup {s}

TagOf(s) == IF s \in DOMAIN tag THEN tag[s] ELSE NoTag

DoneBuild == FALSE

Next == /\ Cardinality(declared) < MaxDeclared
        /\ \E s \in {x \in SUBSET NodeSet : Cardinality(x) \in 1..4}, t \in TagSet : Declare(s, t)

\* ---- numbering: ids are a bijection K -> 0..|K|-1, grouped or not ------
Numberings(S) == {f \in [S -> 0..(Cardinality(S) - 1)] : \A a, b \in S : f[a] = f[b] => a = b}

\* ---- properties --------------------------------------------------------
TypeOK == /\ K \subseteq (SUBSET NodeSet \ {{}})
          /\ DOMAIN tag = declared
Closed == IsComplex(K)
Minimal == K = ClosureOf(declared)
TagsKept == \A s \in K : (TagOf(s) # NoTag) <=> (s \in declared)
Monotone == [][K \subseteq K']_<<K, tag, declared>>
\* declared tags are never altered by later declarations
TagStable == [][\A s \in declared : tag'[s] = tag[s]]_<<K, tag, declared>>
Spec == Init /\ [][Next]_<<K, tag, declared>>
===========================================================================
