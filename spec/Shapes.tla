------------------------------- MODULE Shapes -------------------------------
(* The data model of a domain: a heap of shapes naming each other as        *)
(* boundary or immersed shapes; equality, membership, assignment, the       *)
(* graph, the queries of a domain and its renumbering.                      *)
(*   shape : [d, t, f, a, c, b, i, p]  dimension, tag, physical tag, active,*)
(*           composite, boundary and immersed shapes (heap indices), place  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

IsVertex(h, s) == h[s].d = 0
\* a wire shows the pieces of its edges instead of the edges
RECURSIVE FlatFrom(_, _, _)
FlatFrom(h, q, k) == IF k > Len(q) THEN <<>>
    ELSE (IF h[q[k]].i = <<>> THEN <<q[k]>> ELSE h[q[k]].i) \o FlatFrom(h, q, k + 1)
Shown(h, s) == IF h[s].d = 1 /\ h[s].c THEN FlatFrom(h, h[s].i, 1) ELSE h[s].i
\* --- equality: same dimension and tag, same place, equal members in the same positions
RECURSIVE Same(_, _, _)
Same(h, s, t) ==
    /\ h[s].d = h[t].d /\ h[s].t = h[t].t
    /\ (IsVertex(h, s) => h[s].p = h[t].p)
    /\ Len(h[s].b) = Len(h[t].b) /\ \A k \in DOMAIN h[s].b : Same(h, h[s].b[k], h[t].b[k])
    /\ LET u == Shown(h, s) v == Shown(h, t) IN Len(u) = Len(v) /\ \A k \in DOMAIN u : Same(h, u[k], v[k])
Member(h, s, t) == \E m \in Range(h[s].b) \cup Range(Shown(h, s)) : Same(h, m, t)
\* --- changes ---------------------------------------------------------------------
Admits(h, s, ms) == \A k \in DOMAIN ms : h[ms[k]].d <= h[s].d
SortByTag(h, ms) == LET idx == SetToSortSeq(DOMAIN ms, LAMBDA x, y : h[ms[x]].t < h[ms[y]].t \/ (h[ms[x]].t = h[ms[y]].t /\ x < y)) IN
    [k \in DOMAIN ms |-> ms[idx[k]]]
SetBoundary(h, s, ms) == [h EXCEPT ![s].b = SortByTag(h, ms)]
SetImmersed(h, s, ms) == [h EXCEPT ![s].i = ms]
Assignable(h, s, t) == h[s].d = h[t].d /\ h[s].c = h[t].c
Assign(h, s, t) ==
    LET g == [h EXCEPT ![s] = [d |-> h[t].d, t |-> h[t].t, f |-> h[t].f, a |-> h[t].a, c |-> h[t].c, b |-> <<>>, i |-> Shown(h, t), p |-> h[t].p]] IN
    [g EXCEPT ![s].b = SortByTag(g, h[t].b)]
\* --- domains: the shapes listed per dimension ----------------------------------------
Index(h, dim, s) == <<dim - h[s].d, h[s].t>>
RECURSIVE Links(_, _)
Links(h, s) == IF IsVertex(h, s) THEN {} ELSE
    LET ms == Range(h[s].b) \cup Range(Shown(h, s)) IN {<<s, m>> : m \in ms} \cup UNION {Links(h, m) : m \in ms}
Graph(h, dim, listed) == {<<Index(h, dim, e[1]), Index(h, dim, e[2])>> : e \in UNION {Links(h, s) : s \in listed}}
RECURSIVE Below(_, _)
Below(h, s) == {s} \cup UNION {Below(h, m) : m \in Range(h[s].b) \cup Range(Shown(h, s))}
Numbered(h, S) == \A s, t \in S : s # t /\ h[s].d = h[t].d => h[s].t # h[t].t
\* --- a wire: edges in the order of the path; signs tell the sense -------------------------
StartV(h, e, o) == IF o = 1 THEN h[e].b[1] ELSE h[e].b[2]
StopV(h, e, o) == IF o = 1 THEN h[e].b[2] ELSE h[e].b[1]
IsPath(h, q, o) == Len(o) = Len(q) /\ \A k \in DOMAIN q : o[k] \in {1, -1} /\ (k > 1 => StopV(h, q[k - 1], o[k - 1]) = StartV(h, q[k], o[k]))
===========================================================================
