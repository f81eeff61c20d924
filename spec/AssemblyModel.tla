--------------------------- MODULE AssemblyModel ---------------------------
(* Order independence and completeness of assembly for every work list of   *)
(* up to two items with arbitrary (also repeated) destinations.             *)
EXTENDS Assembly
Dofs == 0..2
Items == [dest : [1..2 -> Dofs], r : [1..2 -> 1..2], j : {<<<<1, 2>>, <<3, 4>>>>}]
VARIABLE all
Init == /\ all \in [1..2 -> Items]
        /\ todo = {1, 2} /\ res = <<>> /\ mat = <<>>
Do == \E n \in todo : /\ todo' = todo \ {n}
                      /\ res' = AddVec(res, all[n].dest, all[n].r)
                      /\ mat' = AddMat(mat, all[n].dest, all[n].j)
                      /\ UNCHANGED all
Spec == Init /\ [][Do]_<<avars, all>>
SumOver(S, f(_)) == LET RECURSIVE go(_)
                        go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f(x) + go(T \ {x})
                    IN go(S)
Done == {1, 2} \ todo
VecIsSum == \A i \in Dofs : Get(res, i) = SumOver(Done \X {1, 2}, LAMBDA p : IF all[p[1]].dest[p[2]] = i THEN all[p[1]].r[p[2]] ELSE 0)
MatIsSum == \A i, k \in Dofs : Get(mat, <<i, k>>) =
    SumOver(Done \X {1, 2} \X {1, 2}, LAMBDA p : IF all[p[1]].dest[p[2]] = i /\ all[p[1]].dest[p[3]] = k THEN all[p[1]].j[p[2]][p[3]] ELSE 0)
============================================================================
