------------------------------ MODULE FracBox ------------------------------
(* A convex box whose sides and embedded lines (read from a file) keep     *)
(* their identity and are split, where they meet, into ordered pieces that *)
(* share one vertex per meeting.                                           *)
EXTENDS MdBox

Edges(x) == Sides(x) \o x.lines
Cuts(x, j) == {p \in AllTools(x) : Interior(p, Edges(x)[j][1], Edges(x)[j][2])}
\* ordered places of the pieces of an edge; none when nothing cuts it
PieceSeq(x, j) == IF Cuts(x, j) = {} THEN <<>> ELSE
    LET c == Chain(AllTools(x), Edges(x)[j][1], Edges(x)[j][2]) IN [i \in 1..(Len(c) - 1) |-> {c[i], c[i + 1]}]
FracPlaces(x) == {x.box[i] : i \in DOMAIN x.box} \cup {x.lines[j][m] : j \in DOMAIN x.lines, m \in 1..2} \cup AllTools(x)
FracScope(x) == Scoped(x) /\ \A j \in DOMAIN x.lines : \A m \in 1..2 : Inside(x, x.lines[j][m])
\* what lies on the boundary of the box, edge by edge
BoundarySeq(x) == [j \in DOMAIN x.box |-> IF Cuts(x, j) = {} THEN <<{Edges(x)[j][1], Edges(x)[j][2]}>> ELSE PieceSeq(x, j)]
MaxTag(S) == CHOOSE t \in S : \A u \in S : u <= t
\* --- renumbering ---------------------------------------------------------------
\* a list of shapes, each naming the shapes of its own dimension immersed in it; every shape and
\* immersed shape takes the next number in turn, the last one stands
RECURSIVE Renumber(_, _, _, _)
Renumber(list, imm, k, st) ==
    IF k > Len(list) THEN st.tag
    ELSE LET s == list[k]
             m == imm[s]
             own == [st.tag EXCEPT ![s] = st.next]
             all == [i \in DOMAIN own |-> IF \E q \in DOMAIN m : m[q] = i THEN st.next + (CHOOSE q \in DOMAIN m : m[q] = i) ELSE own[i]] IN
         Renumber(list, imm, k + 1, [next |-> st.next + 1 + Len(m), tag |-> all])
Renumbered(list, imm) == Renumber(list, imm, 1, [next |-> 0, tag |-> [i \in DOMAIN imm |-> -1]])
===========================================================================
