----------------------------- MODULE NetworkMC -----------------------------
(* The network is built vertex by vertex: ends first, then the pairs of    *)
(* fractures in any order, then the fractures are cut. Whatever the order, *)
(* the result is the one Network describes.                                *)
EXTENDS Network, TLC
CONSTANTS W, K, Listed
VARIABLES L, verts, ends, met, pending, pieces
vars == <<L, verts, ends, met, pending, pieces>>
Lat == {<<x, y, 0>> : x \in 0..W, y \in 0..W}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Segs == {<<p, q>> \in Lat \X Lat : Before(p, q)}
Key(s) == s[1][1] * 1000 + s[1][2] * 100 + s[2][1] * 10 + s[2][2]
\* Listed: only one order of the same fractures is started from
Tags == [j \in 1..K |-> 9 + j]
\* index of the vertex at p, a new one when there is none
Lookup(V, p) == IF \E i \in DOMAIN V : V[i][1] = p THEN CHOOSE i \in DOMAIN V : V[i][1] = p ELSE 0
Insert(V, p, f) == IF Lookup(V, p) # 0 THEN V ELSE Append(V, <<p, f>>)
RECURSIVE EndVerts(_, _, _)
EndVerts(N, j, V) == IF j > K THEN V ELSE EndVerts(N, j + 1, Insert(Insert(V, N[j][1], Tags[j]), N[j][2], Tags[j]))
Init ==
    /\ L \in {N \in [1..K -> Segs] : (Listed => \A i \in 1..(K - 1) : Key(N[i]) < Key(N[i + 1])) /\ NetworkScope(N)}
    /\ verts = EndVerts(L, 1, <<>>)
    /\ ends = [j \in 1..K |-> <<Lookup(verts, L[j][1]), Lookup(verts, L[j][2])>>]
    /\ met = [j \in 1..K |-> {}]
    /\ pending = {<<i, j>> \in (1..K) \X (1..K) : i < j}
    /\ pieces = <<>>
Visit == \E c \in pending :
    LET P == Common(L[c[1]], L[c[2]]) IN
    /\ pending' = pending \ {c}
    /\ IF P = {} THEN UNCHANGED <<verts, met>>
       ELSE LET p == CHOOSE p \in P : TRUE
                V == Insert(verts, p, PairTag(Tags[c[1]], Tags[c[2]])) IN
            /\ verts' = V
            /\ met' = [met EXCEPT ![c[1]] = @ \cup {Lookup(V, p)}, ![c[2]] = @ \cup {Lookup(V, p)}]
    /\ UNCHANGED <<L, ends, pieces>>
Far(j, i) == Norm2(Sub(verts[i][1], L[j][1]))
Cut ==
    /\ pending = {} /\ pieces = <<>>
    /\ pieces' = [j \in 1..K |-> IF met[j] = {} THEN <<>> ELSE
          LET inner == SetToSortSeq(met[j], LAMBDA a, b : Far(j, a) < Far(j, b))
              pre == IF ends[j][1] \in met[j] THEN <<>> ELSE <<ends[j][1]>>
              post == IF ends[j][2] \in met[j] THEN <<>> ELSE <<ends[j][2]>>
              c == pre \o inner \o post IN [i \in 1..(Len(c) - 1) |-> <<c[i], c[i + 1]>>]]
    /\ UNCHANGED <<L, verts, ends, met, pending>>
Next == Visit \/ Cut
Spec == Init /\ [][Next]_vars
Done == pieces # <<>>
At(i) == verts[i][1]
OneVertexPerPlace == Cardinality({At(i) : i \in DOMAIN verts}) = Len(verts)
Result == Done =>
    /\ {At(i) : i \in DOMAIN verts} = Places(L)
    /\ \A j \in 1..K : {{At(e[1]), At(e[2])} : e \in Range(pieces[j])} =
          (IF MeetsOf(L, j) = {} THEN {} ELSE Pieces(MeetsOf(L, j), L[j][1], L[j][2]))
    /\ \A j \in 1..K : pieces[j] # <<>> => At(pieces[j][1][1]) = L[j][1] /\ At(pieces[j][Len(pieces[j])][2]) = L[j][2]
    /\ \A i \in DOMAIN verts : verts[i][2] \in PlaceTags(L, Tags, At(i))
    /\ Conforming(UNION {{{At(e[1]), At(e[2])} : e \in Range(pieces[j])} : j \in 1..K})
ASSUME \A x, y \in 0..40 : Unpair(PairTag(x, y)) = <<x, y>>
ASSUME \A x, y, u, v \in 0..12 : PairTag(x, y) = PairTag(u, v) => <<x, y>> = <<u, v>>
Inv == OneVertexPerPlace /\ Result
===========================================================================
