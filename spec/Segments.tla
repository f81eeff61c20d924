----------------------------- MODULE Segments ------------------------------
(* The decision procedure for the intersection of two segments, step by    *)
(* step (ends of the first on the second, containment of the second, then  *)
(* the parametric solution), over all segments of a grid; its answer is    *)
(* compared with the definition of the set of common points.               *)
EXTENDS Vec3, TLC
CONSTANTS N, Flat          \* grid 0..N, Flat: planar
VARIABLES a, b, c, d, phase, ans
svars == <<a, b, c, d, phase, ans>>
Pts == {<<i, j, k>> : i \in 0..N, j \in 0..N, k \in (IF Flat THEN {0} ELSE 0..N)}
Init == /\ a \in Pts /\ b \in Pts /\ c \in Pts /\ d \in Pts
        /\ a # b /\ c # d
        /\ phase = "ends" /\ ans = [kind |-> "none", pts |-> {}]
EndsStep ==
    /\ phase = "ends"
    /\ LET on == {p \in {a, b} : OnSegment(p, c, d)} IN
         IF on # {} THEN ans' = [kind |-> "ends", pts |-> on] /\ phase' = "done"
         ELSE phase' = "containment" /\ UNCHANGED ans
ContainmentStep ==
    /\ phase = "containment"
    /\ LET on == {p \in {c, d} : OnSegment(p, a, b)} IN
         IF Cardinality(on) = 2 THEN ans' = [kind |-> "ends", pts |-> on] /\ phase' = "done"
         ELSE phase' = "solve" /\ UNCHANGED ans
SolveStep ==
    /\ phase = "solve"
    /\ phase' = "done"
    /\ ans' = IF CrossAtOnePoint(a, b, c, d) THEN [kind |-> "cross", pts |-> {XNum(a, b, c, d)}] ELSE [kind |-> "none", pts |-> {}]
Next == (EndsStep \/ ContainmentStep \/ SolveStep) /\ UNCHANGED <<a, b, c, d>>
Spec == Init /\ [][Next]_svars

\* common points by an independent definition: the signs of the four orientations (planar), or common grid points
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Ori(p, q, r) == Sign(Cross(Sub(q, p), Sub(r, p))[3])
MeetByOrientation ==
    \/ /\ Ori(a, b, c) * Ori(a, b, d) <= 0 /\ Ori(c, d, a) * Ori(c, d, b) <= 0
       /\ ~(Ori(a, b, c) = 0 /\ Ori(a, b, d) = 0)
    \/ \E p \in {a, b} : OnSegment(p, c, d)
    \/ \E p \in {c, d} : OnSegment(p, a, b)
EmptyIffDisjoint == phase = "done" => ((ans.kind # "none") <=> MeetByOrientation)
EmptyIffDisjoint3 == phase = "done" => ((ans.kind # "none") <=> SegmentsMeet(a, b, c, d))
GridPointsFound == phase = "done" => (\A p \in Pts : OnSegment(p, a, b) /\ OnSegment(p, c, d) => ans.kind # "none")
Unique == phase = "done" /\ MeetInOnePoint(a, b, c, d) => Cardinality(ans.pts) = 1
EndsSound == phase = "done" /\ ans.kind = "ends" => \A p \in ans.pts : OnSegment(p, a, b) /\ OnSegment(p, c, d)
CrossSound == phase = "done" /\ ans.kind = "cross" => \A p \in ans.pts :
      LET w == XDen(a, b, c, d) IN OnSegment(p, Scale(w, a), Scale(w, b)) /\ OnSegment(p, Scale(w, c), Scale(w, d))
===========================================================================
