----------------------------- MODULE FracBoxMC -----------------------------
(* The domain is built meeting by meeting: pairs of edges in any order     *)
(* list their common point, the edges are cut one after the other in any   *)
(* order, then the shapes are renumbered.                                  *)
EXTENDS FracBox, TLC
CONSTANTS W, K
VARIABLES L, verts, met, pending, uncut, pieces, list, tags
vars == <<L, verts, met, pending, uncut, pieces, list, tags>>
Box == << <<0, 0, 0>>, <<W, 0, 0>>, <<W, W, 0>>, <<0, W, 0>> >>
X(N) == [box |-> Box, sidetags |-> <<2, 3, 4, 5>>, lines |-> N, linetag |-> 0, endtag |-> 0, pointtag |-> 0]
Lat == {<<x, y, 0>> : x \in 0..W, y \in 0..W}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Segs == {s \in Lat \X Lat : Before(s[1], s[2])}
Key(s) == s[1][1] * 1000 + s[1][2] * 100 + s[2][1] * 10 + s[2][2]
E == Edges(X(L))
N == 4 + K
Init ==
    /\ L \in {M \in [1..K -> Segs] : (\A i \in 1..(K - 1) : Key(M[i]) < Key(M[i + 1])) /\ FracScope(X(M))}
    /\ verts = <<>>
    /\ met = [j \in 1..N |-> {}]
    /\ pending = {c \in (1..N) \X (1..N) : c[1] < c[2] /\ c[2] > 4}
    /\ uncut = 1..N /\ pieces = [j \in 1..N |-> <<>>]
    /\ list = <<>> /\ tags = <<>>
Lookup(p) == IF \E i \in DOMAIN verts : verts[i] = p THEN CHOOSE i \in DOMAIN verts : verts[i] = p ELSE 0
Visit == \E c \in pending :
    LET P == IntMeet(E[c[1]], E[c[2]]) IN
    /\ \A d \in pending : d[1] > c[1] \/ (d[1] = c[1] /\ d[2] >= c[2])
    /\ pending' = pending \ {c}
    /\ IF P = {} THEN UNCHANGED <<verts, met>>
       ELSE LET p == CHOOSE p \in P : TRUE IN
            /\ verts' = IF Lookup(p) = 0 THEN Append(verts, p) ELSE verts
            /\ met' = [met EXCEPT ![c[1]] = @ \cup {p}, ![c[2]] = @ \cup {p}]
    /\ UNCHANGED <<L, uncut, pieces, list, tags>>
\* pieces are appended to the list of shapes as the edges are cut: sides, boundary wire (shape N+1), lines, pieces
Cut == \E j \in uncut :
    /\ pending = {}
    /\ uncut' = uncut \ {j}
    /\ LET inner == {p \in met[j] : Interior(p, E[j][1], E[j][2])}
           c == Chain(inner, E[j][1], E[j][2]) IN
       pieces' = [pieces EXCEPT ![j] = IF inner = {} THEN <<>> ELSE [i \in 1..(Len(c) - 1) |-> {c[i], c[i + 1]}]]
    /\ list' = list \o [i \in DOMAIN pieces'[j] |-> <<j, i>>]
    /\ UNCHANGED <<L, verts, met, pending, tags>>
Frag(j, i) == N + 1 + (CHOOSE k \in DOMAIN list : list[k] = <<j, i>>)
Frags(j) == [i \in DOMAIN pieces[j] |-> Frag(j, i)]
Flat(s) == IF s = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
WireOf == Flat([j \in 1..4 |-> IF pieces[j] = <<>> THEN <<j>> ELSE Frags(j)])
Imm == TLCEval([s \in 1..(N + 1 + Len(list)) |-> IF s <= N THEN Frags(s) ELSE IF s = N + 1 THEN WireOf ELSE <<>>])
Listing == <<1, 2, 3, 4, N + 1>> \o [i \in 1..K |-> 4 + i] \o [i \in DOMAIN list |-> N + 1 + i]
Retag ==
    /\ pending = {} /\ uncut = {} /\ tags = <<>>
    /\ tags' = Renumbered(Listing, Imm)
    /\ UNCHANGED <<L, verts, met, pending, uncut, pieces, list>>
Next == Visit \/ Cut \/ Retag
Spec == Init /\ [][Next]_vars
Done == tags # <<>>
Result == uncut = {} =>
    /\ {verts[i] : i \in DOMAIN verts} = AllTools(X(L))
    /\ \A j \in 1..N : pieces[j] = PieceSeq(X(L), j)
    /\ Conforming(UNION {IF pieces[j] = <<>> THEN {{E[j][1], E[j][2]}} ELSE Range(pieces[j]) : j \in 1..N})
OneVertexPerPlace == Cardinality({verts[i] : i \in DOMAIN verts}) = Len(verts)
TagsDistinct == Done => /\ \A s \in DOMAIN tags : tags[s] >= 0
                        /\ \A s, t \in DOMAIN tags : s # t => tags[s] # tags[t]
\* the boundary is a closed chain
BoundaryClosed == uncut = {} => LET b == Flat(BoundarySeq(X(L))) IN \A i \in DOMAIN b : Cardinality(b[i] \cap b[(i % Len(b)) + 1]) >= 1
Inv == Result /\ OneVertexPerPlace /\ TagsDistinct /\ BoundaryClosed
View == <<L, verts, met, pending, uncut, pieces, tags>>
===========================================================================
