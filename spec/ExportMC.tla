------------------------------ MODULE ExportMC ------------------------------
(* Vertices are visited in any order, each gathering its attached cells in  *)
(* any order: the mean depends on neither, equals the common value where    *)
(* the cells agree, lies between the least and the greatest of them, and    *)
(* exactly the vertices outside the support keep the filler.                *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS NV, Values, Filler
VARIABLES cells, on, val, todo, sum, cnt
Verts == 1..NV
Att(v) == {c \in on : v \in c}
Init == /\ cells \in {C \in SUBSET {c \in SUBSET Verts : Cardinality(c) = 3} : C # {} /\ Cardinality(C) <= 4}
        /\ on \in SUBSET cells
        /\ val \in [on -> Values]
        /\ todo = {<<c, v>> \in on \X Verts : v \in c}
        /\ sum = [v \in Verts |-> 0] /\ cnt = [v \in Verts |-> 0]
Gather == \E p \in todo : /\ todo' = todo \ {p}
                          /\ sum' = [sum EXCEPT ![p[2]] = @ + val[p[1]]]
                          /\ cnt' = [cnt EXCEPT ![p[2]] = @ + 1]
                          /\ UNCHANGED <<cells, on, val>>
Next == Gather
Spec == Init /\ [][Next]_<<cells, on, val, todo, sum, cnt>>
Out(v) == IF cnt[v] = 0 THEN <<Filler, 1>> ELSE <<sum[v], cnt[v]>>
Done == todo = {}
RECURSIVE Add(_)
Add(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN val[c] + Add(S \ {c})
OrderFree == Done => \A v \in Verts : cnt[v] = Cardinality(Att(v)) /\ sum[v] = Add(Att(v))
Consistent == Done => \A v \in Verts : \A c \in Att(v) : (\A d \in Att(v) : val[d] = val[c]) => Out(v)[1] = val[c] * Out(v)[2]
Between == Done => \A v \in Verts : Att(v) # {} =>
    /\ \E c \in Att(v) : val[c] * cnt[v] <= sum[v]
    /\ \E c \in Att(v) : val[c] * cnt[v] >= sum[v]
Outside == \A v \in Verts : Att(v) = {} => Out(v) = <<Filler, 1>>
=============================================================================
