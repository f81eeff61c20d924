------------------------------ MODULE ShapesMC ------------------------------
(* Histories of changes on a small heap: two vertices, three edges (the     *)
(* third may be a piece of the others), a wire and a copy.                  *)
EXTENDS Shapes, TLC
CONSTANTS Tags, Places, Depth
VARIABLES heap, n
vars == <<heap, n>>
V == 1..3  E == 4..5  W == {6, 7}
New(d, t, c, b, i, p) == [d |-> d, t |-> t, f |-> 0, a |-> TRUE, c |-> c, b |-> b, i |-> i, p |-> p]
Init ==
    /\ n = 0
    /\ \E t \in [1..7 -> Tags], p \in [V -> Places] :
        /\ \A v \in 1..2 : t[v] = v - 1
        /\ t[4] = 0 /\ t[6] = 0 /\ p[1] = 0
        /\ heap = <<New(0, t[1], FALSE, <<>>, <<>>, p[1]), New(0, t[2], FALSE, <<>>, <<>>, p[2]), New(0, t[3], FALSE, <<>>, <<>>, p[3]),
                New(1, t[4], FALSE, <<1, 2>>, <<>>, 0), New(1, t[5], FALSE, <<1, 2>>, <<>>, 0),
                New(1, t[6], TRUE, <<1, 2>>, <<4>>, 0), New(1, t[7], TRUE, <<1, 2>>, <<5>>, 0)>>
Tag == \E s \in 1..7, t \in Tags : heap' = [heap EXCEPT ![s].t = t]
Place == \E s \in V, p \in Places : heap' = [heap EXCEPT ![s].p = p]
Bound == \E s \in E \cup W, x \in V, y \in V : heap' = SetBoundary(heap, s, <<x, y>>)
Imm == \E s \in W, x \in E : heap' = SetImmersed(heap, s, <<x>>)
Asg == \E s \in 1..7, t \in 1..7 : s # t /\ Assignable(heap, s, t) /\ heap' = Assign(heap, s, t)
Next == n < Depth /\ n' = n + 1 /\ (Tag \/ Place \/ Bound \/ Imm \/ Asg)
Spec == Init /\ [][Next]_vars
All == 1..7
SameIsEquivalence ==
    LET R == TLCEval([s \in All |-> {t \in All : Same(heap, s, t)}]) IN
    /\ \A s \in All : s \in R[s]
    /\ \A s \in All : \A t \in R[s] : R[t] = R[s]
\* equal shapes have equal members and are members of the same shapes
Congruent == \A s, t \in All : Same(heap, s, t) => \A u \in All : (Member(heap, s, u) <=> Member(heap, t, u)) /\ (Member(heap, u, s) <=> Member(heap, u, t))
\* distinct tags give the graph one node per shape
GraphFaithful == LET S == UNION {Below(heap, s) : s \in W} IN
    Numbered(heap, S) => Cardinality(Graph(heap, 1, W)) = Cardinality(UNION {Links(heap, s) : s \in W})
Inv == SameIsEquivalence /\ Congruent /\ GraphFaithful
\* assigning gives an equal shape when the boundary was in the order of the tags
AssignedEqual == [][\A s, t \in All : (s # t /\ n < Depth /\ Assignable(heap, s, t) /\ heap' = Assign(heap, s, t) /\ heap[t].b = SortByTag(heap, heap[t].b)
    /\ s \notin Below(heap, t) /\ Shown(heap, t) = heap[t].i) => Same(heap', s, t)]_vars
===========================================================================
