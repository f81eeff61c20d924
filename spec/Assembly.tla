------------------------------ MODULE Assembly ------------------------------
(* Global assembly.  A work list of (form, item) pairs is processed in      *)
(* order; processing one adds its local vector and matrix at its            *)
(* destinations.  Destinations may repeat inside one item (both sides of an *)
(* interface sharing a DoF, a cell paired with itself): every occurrence is *)
(* added.  Whatever the order, the result is the sum over all contributions.*)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* sums of local contributions, as functions on the touched indices
AddVec(v, dest, r) ==
    LET add(i) == LET S == {k \in DOMAIN dest : dest[k] = i}
                      RECURSIVE go(_)
                      go(T) == IF T = {} THEN 0 ELSE LET k == CHOOSE x \in T : TRUE IN r[k] + go(T \ {k})
                  IN go(S)
        D == {dest[k] : k \in DOMAIN dest}
        old(i) == IF i \in DOMAIN v THEN v[i] ELSE 0
    IN [i \in D |-> old(i) + add(i)] @@ v
AddMat(m, dest, j) ==
    LET add(a, b) == LET S == {p \in (DOMAIN dest) \X (DOMAIN dest) : dest[p[1]] = a /\ dest[p[2]] = b}
                         RECURSIVE go(_)
                         go(T) == IF T = {} THEN 0 ELSE LET p == CHOOSE x \in T : TRUE IN j[p[1]][p[2]] + go(T \ {p})
                     IN go(S)
        D == {dest[k] : k \in DOMAIN dest}
        old(p) == IF p \in DOMAIN m THEN m[p] ELSE 0
    IN [p \in D \X D |-> old(p) + add(p[1], p[2])] @@ m
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0

VARIABLES todo, res, mat
avars == <<todo, res, mat>>
=============================================================================
