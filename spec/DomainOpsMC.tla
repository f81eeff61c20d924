---------------------------- MODULE DomainOpsMC ----------------------------
(* Cutting segments at points one after the other, in any order, against   *)
(* the chain definition; cutting at all meeting points makes the complex   *)
(* conforming.                                                              *)
EXTENDS DomainOps, TLC
CONSTANTS N, K, Edges
Pts == {<<x, y, 0>> : x \in 0..N, y \in 0..N}
Big(p) == Scale(K, p)
VARIABLES segs, todo, tools, pieces
vars == <<segs, todo, tools, pieces>>
IntMeets(a, b, c, d) == IF Parallel(a, b, c, d) THEN CommonEnds(a, b, c, d)
                        ELSE IF ~CrossAtOnePoint(a, b, c, d) THEN {}
                        ELSE LET n == XNum(a, b, c, d)
                                 m == XDen(a, b, c, d) IN
                             IF n[1] % m = 0 /\ n[2] % m = 0 THEN {<<n[1] \div m, n[2] \div m, 0>>} ELSE {<<-1, -1, -1>>}
Meets(S) == UNION {IntMeets(s[1], s[2], t[1], t[2]) : s \in S, t \in S}
All == {<<Big(a), Big(b)>> : a \in Pts, b \in Pts}
Ordered(s) == s[1][1] < s[2][1] \/ (s[1][1] = s[2][1] /\ s[1][2] < s[2][2])
Segs == {s \in All : Ordered(s)}
Less(s, t) == \/ s[1][1] < t[1][1] \/ (s[1][1] = t[1][1] /\ s[1][2] < t[1][2])
              \/ (s[1] = t[1] /\ (s[2][1] < t[2][1] \/ (s[2][1] = t[2][1] /\ s[2][2] < t[2][2])))
Init ==
    /\ \E s, t, u \in Segs : (Less(s, t) \/ s = t) /\ (Less(t, u) \/ (Edges = 2 /\ t = u)) /\ (Edges = 2 => t = u) /\ segs = {s, t, u}
    /\ \A s, t \in segs : s = t \/ ~(Parallel(s[1], s[2], t[1], t[2]) /\ Cardinality(CommonEnds(s[1], s[2], t[1], t[2])) > 1)
    /\ <<-1, -1, -1>> \notin Meets(segs)
    /\ todo = UNION {IntMeets(s[1], s[2], t[1], t[2]) : s \in segs, t \in segs}
    /\ tools = {}
    /\ pieces = {<<s, {s[1], s[2]}>> : s \in segs}
Ends(p) == CHOOSE x \in p \X p : x[1] # x[2]
SplitAt(t) == UNION {LET e == Ends(x[2]) IN IF Interior(t, e[1], e[2]) THEN {<<x[1], {e[1], t}>>, <<x[1], {t, e[2]}>>} ELSE {x} : x \in pieces}
Cut(t) == /\ todo' = todo \ {t}
          /\ tools' = tools \cup {t}
          /\ pieces' = SplitAt(t)
          /\ UNCHANGED segs
Next == \E t \in todo : Cut(t)
Spec == Init /\ [][Next]_vars
OrderFree == \A s \in segs : {x[2] : x \in {y \in pieces : y[1] = s}} = Pieces(tools, s[1], s[2])
ChainCovers == \A s \in segs : Covers(tools, s[1], s[2])
DoneConforming == todo = {} => Conforming({x[2] : x \in pieces})
MonotoneCount == Cardinality(pieces) >= Cardinality(segs)
===========================================================================
