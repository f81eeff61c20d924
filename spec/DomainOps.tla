----------------------------- MODULE DomainOps -----------------------------
(* One-dimensional domains: segments carrying end vertices, cut at points  *)
(* (difference) and reconnected through those points (union).              *)
(*   segment  : [a, b]      piece : {p, q}                                  *)
EXTENDS Vec3, SequencesExt

Interior(p, a, b) == OnSegment(p, a, b) /\ p # a /\ p # b
Incident(P, a, b) == {p \in P : OnSegment(p, a, b)}
\* points of the cut segment, ordered from a to b
Chain(P, a, b) == SetToSortSeq({a, b} \cup Incident(P, a, b), LAMBDA p, q : Dot(Sub(p, a), Sub(b, a)) < Dot(Sub(q, a), Sub(b, a)))
Pieces(P, a, b) == LET c == Chain(P, a, b) IN {{c[i], c[i + 1]} : i \in 1..(Len(c) - 1)}
\* squared length ratio free cover test: consecutive points of the chain are in order
Covers(P, a, b) == LET c == Chain(P, a, b) IN c[1] = a /\ c[Len(c)] = b
\* two segments meet only in common ends
ConformingPair(s, t) == \A p \in s, q \in s, u \in t, v \in t : (p # q /\ u # v /\ s # t) =>
    IF Parallel(p, q, u, v) THEN Cardinality(CommonEnds(p, q, u, v)) <= 1 /\ CommonEnds(p, q, u, v) \subseteq (s \cap t)
    ELSE CrossAtOnePoint(p, q, u, v) => (s \cap t # {})
Conforming(S) == \A s, t \in S : ConformingPair(s, t)
===========================================================================
