------------------------------ MODULE Network ------------------------------
(* Planar networks of fractures: every place where two fractures meet is   *)
(* one vertex shared by both, and every fracture that meets another is cut *)
(* there into pieces listed from its first end to its second.              *)
(*   lines: sequence of [a, b] (integer points)                             *)
EXTENDS DomainOps

\* the common points of two segments; a marker when the crossing is not integral
Marker == <<-9999, -9999, 0>>
Common(s, t) == LET a == s[1] b == s[2] c == t[1] d == t[2] IN
    IF Parallel(a, b, c, d) THEN CommonEnds(a, b, c, d)
    ELSE IF ~CrossAtOnePoint(a, b, c, d) THEN {}
    ELSE LET n == XNum(a, b, c, d)
             m == XDen(a, b, c, d) IN
         IF n[1] % m = 0 /\ n[2] % m = 0 THEN {<<n[1] \div m, n[2] \div m, n[3] \div m>>} ELSE {Marker}
MeetsOf(L, j) == UNION {IF i = j THEN {} ELSE Common(L[i], L[j]) : i \in DOMAIN L}
AllMeets(L) == UNION {MeetsOf(L, j) : j \in DOMAIN L}
Ends(L) == UNION {{L[j][1], L[j][2]} : j \in DOMAIN L}
Places(L) == Ends(L) \cup AllMeets(L)
NetworkScope(L) ==
    /\ Marker \notin AllMeets(L)
    /\ \A i, j \in DOMAIN L : i < j => ~(Parallel(L[i][1], L[i][2], L[j][1], L[j][2]) /\ Cardinality(Common(L[i], L[j])) > 1)
\* pairing of tags (Szudzik)
PairTag(x, y) == IF x < y THEN y * y + x ELSE x * x + x + y
RECURSIVE RootFrom(_, _)
RootFrom(z, r) == IF (r + 1) * (r + 1) > z THEN r ELSE RootFrom(z, r + 1)
Unpair(z) == LET r == RootFrom(z, 0) IN IF z - r * r < r THEN <<z - r * r, r>> ELSE <<r, z - r * r - r>>
\* tags a vertex at p may carry: that of a fracture ending there, or the pair of two fractures crossing there
EndTags(L, f, p) == {f[j] : j \in {j \in DOMAIN L : p \in {L[j][1], L[j][2]}}}
CrossTags(L, f, p) == {PairTag(f[i], f[j]) : i, j \in {k \in DOMAIN L : OnSegment(p, L[k][1], L[k][2])}}
PlaceTags(L, f, p) == IF EndTags(L, f, p) # {} THEN EndTags(L, f, p) ELSE CrossTags(L, f, p)
===========================================================================
