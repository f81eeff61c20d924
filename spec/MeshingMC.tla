----------------------------- MODULE MeshingMC -----------------------------
(* A square with one fracture, meshed; the mesh is bisected, flipped and   *)
(* relaxed (steps that keep it a subdivision) or damaged (a cell lost, a   *)
(* node displaced, a hanging node, a crack, a piece swapped for another).  *)
(* The conditions of Meshing hold after every sound step, and whenever     *)
(* they hold the cells cover the square exactly once and carry the         *)
(* fracture.                                                               *)
EXTENDS Meshing, TLC
CONSTANTS W, MaxNodes, MaxDamage
VARIABLES P, T, damage
vars == <<P, T, damage>>
H == W \div 2
Corner == << <<0, 0>>, <<W, 0>>, <<W, W>>, <<0, W>> >>
SidesW == [i \in 1..4 |-> <<Corner[i], Corner[(i % 4) + 1]>>]
FracA == <<0, H>>
FracB == <<H, H>>
Init ==
    /\ P = Corner \o << FracA, FracB >>
    /\ T = << <<1, 2, 6>>, <<2, 3, 6>>, <<3, 4, 6>>, <<4, 5, 6>>, <<5, 1, 6>> >>
    /\ damage = 0
Min2(e) == CHOOSE a \in e : \A b \in e : a <= b
Max2(e) == CHOOSE a \in e : \A b \in e : b <= a
Lattice == (0..W) \X (0..W)
Edges == UNION {{{t[1], t[2]}, {t[2], t[3]}, {t[3], t[1]}} : t \in Range(T)}
Holds == Subdivides(P, T, SidesW, 0) /\ Carries(P, Directed(P, T), FracA, FracB, 0)
Drop(k) == SubSeq(T, 1, k - 1) \o SubSeq(T, k + 1, Len(T))
Put(t, i, n) == [k \in 1..3 |-> IF t[k] = i THEN n ELSE t[k]]
\* bisect every cell on the edge (a subset of them: a hanging node)
Split(e, K) ==
    LET a == Min2(e) b == Max2(e) n == Len(P) + 1
        cut(t) == << Put(t, a, n), Put(t, b, n) >>
        parts == [k \in DOMAIN T |-> IF k \in K THEN cut(T[k]) ELSE <<T[k]>>] IN
    /\ (P[a][1] + P[b][1]) % 2 = 0 /\ (P[a][2] + P[b][2]) % 2 = 0
    /\ Len(P) < MaxNodes
    /\ P' = Append(P, <<(P[a][1] + P[b][1]) \div 2, (P[a][2] + P[b][2]) \div 2>>)
    /\ T' = FlattenSeq(parts)
On(e) == {k \in DOMAIN T : \A i \in e : i \in {T[k][1], T[k][2], T[k][3]}}
Bisect == damage = 0 /\ \E e \in Edges : Split(e, On(e)) /\ UNCHANGED damage
Hang == damage < MaxDamage /\ \E e \in Edges : \E K \in SUBSET On(e) : K # On(e) /\ Split(e, K) /\ damage' = damage + 1
\* change the diagonal of a convex quadrilateral which is not on the fracture
Flip == damage = 0 /\ \E e \in Edges :
    /\ Cardinality(On(e)) = 2
    /\ ~\A i \in e : NearSeg(P[i], FracA, FracB, 0)
    /\ LET k == CHOOSE k \in On(e) : TRUE
           j == CHOOSE j \in On(e) : j # k
           a == Min2(e) b == Max2(e)
           c == CHOOSE i \in {T[k][1], T[k][2], T[k][3]} : i \notin e
           d == CHOOSE i \in {T[j][1], T[j][2], T[j][3]} : i \notin e IN
        /\ Cross2(P[c], P[d], P[a]) * Cross2(P[c], P[d], P[b]) < 0
        /\ Cross2(P[a], P[b], P[c]) * Cross2(P[a], P[b], P[d]) < 0
        /\ T' = [T EXCEPT ![k] = <<a, c, d>>, ![j] = <<b, c, d>>]
        /\ UNCHANGED <<P, damage>>
\* any node anywhere: sound or not
Move == damage < MaxDamage /\ damage' = damage + 1 /\ \E i \in DOMAIN P : \E p \in Lattice : P' = [P EXCEPT ![i] = p] /\ UNCHANGED T
Lose == damage < MaxDamage /\ damage' = damage + 1 /\ \E k \in DOMAIN T : T' = Drop(k) /\ UNCHANGED P
\* one cell uses another node
Swap == damage < MaxDamage /\ damage' = damage + 1 /\ \E k \in DOMAIN T, j \in 1..3, n \in DOMAIN P :
          n \notin {T[k][1], T[k][2], T[k][3]} /\ T' = [T EXCEPT ![k][j] = n] /\ UNCHANGED P
\* a node is doubled and some cells use the double
Crack == damage < MaxDamage /\ damage' = damage + 1 /\ Len(P) < MaxNodes /\ \E i \in DOMAIN P :
          LET own == {k \in DOMAIN T : i \in {T[k][1], T[k][2], T[k][3]}} IN
          \E K \in SUBSET own : K # {} /\ K # own /\ P' = Append(P, P[i]) /\ T' = [k \in DOMAIN T |-> IF k \in K THEN Put(T[k], i, Len(P) + 1) ELSE T[k]]
Seen == IF damage = 0 THEN <<{{P[i] : i \in Range(T[k])} : k \in DOMAIN T}, 0>> ELSE <<P, {{i : i \in Range(T[k])} : k \in DOMAIN T}, Len(T), damage>>
Next == Bisect \/ Flip \/ Hang \/ Move \/ Lose \/ Swap \/ Crack
Spec == Init /\ [][Next]_vars
\* --- the global meaning ------------------------------------------------------------
RECURSIVE SumArea(_)
SumArea(k) == IF k = 0 THEN 0 ELSE AbsN(Area2(P, T[k])) + SumArea(k - 1)
Four(p) == <<4 * p[1], 4 * p[2]>>
Inside(p) == p[1] >= 0 /\ p[1] <= W /\ p[2] >= 0 /\ p[2] <= W
\* two turned cells have no interior point in common: a side of one keeps the other out
Apart(s, t) == LET u == Turned(P, s) v == Turned(P, t) IN
    \/ \E e \in Around(u) : \A i \in {v[1], v[2], v[3]} : Cross2(P[e[1]], P[e[2]], P[i]) <= 0
    \/ \E e \in Around(v) : \A i \in {u[1], u[2], u[3]} : Cross2(P[e[1]], P[e[2]], P[i]) <= 0
ExactCover ==
    /\ NoFlat(P, T)
    /\ SumArea(Len(T)) = 2 * W * W
    /\ \A k \in DOMAIN T : \A i \in Range(T[k]) : Inside(P[i])
    /\ \A k, j \in DOMAIN T : k < j => Apart(T[k], T[j])
\* no cell crosses the fracture: all its nodes are on one side of it, or beyond its end
\* (with the fracture on lattice line H: a cell with nodes on both sides of the line meets it at its own nodes or beyond its end)
FractureKept == \A k \in DOMAIN T : \A s \in 0..(2 * H - 1) : LET q == <<2 * s + 1, 4 * H>> IN
    ~\A e \in Around(Turned(P, T[k])) : Cross2(Four(P[e[1]]), Four(P[e[2]]), q) > 0
NoHanging == \A i \in DOMAIN P : \A k \in DOMAIN T : i \notin {T[k][1], T[k][2], T[k][3]} =>
    \A e \in Around(T[k]) : ~NearSeg(P[i], P[e[1]], P[e[2]], 0)
SoundStepsHold == damage = 0 => Holds
HoldsMeansExact == Holds => ExactCover /\ FractureKept /\ NoHanging
\* and the damage is told apart: an exact subdivision of the same kind is never refused
ExactMeansHolds == (ExactCover /\ FractureKept /\ NoHanging
                    /\ Cardinality(Range(P)) = Len(P) /\ (\A i \in DOMAIN P : \E k \in DOMAIN T : i \in Range(T[k]))
                    /\ \A a \in Range(Corner) \cup {FracA, FracB} : \E i \in DOMAIN P : P[i] = a) => Holds
Inv == SoundStepsHold /\ HoldsMeansExact /\ ExactMeansHolds
===========================================================================
