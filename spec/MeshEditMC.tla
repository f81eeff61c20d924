----------------------------- MODULE MeshEditMC -----------------------------
(* Histories on a strip of two triangles over four nodes: growing, splitting *)
(* the mesh along parts of the shared edge, and stray copies.                *)
EXTENDS MeshEdit, TLC
CONSTANTS Steps
VARIABLES cells, pts, held, n
vars == <<cells, pts, held, n>>
None == -1
C0(d, i, x, s) == [d |-> d, id |-> i, t |-> None, x |-> x, s |-> s]
Base == <<C0(0, 0, <<0>>, <<<<0>>>>), C0(0, 1, <<1>>, <<<<1>>>>), C0(0, 2, <<2>>, <<<<2>>>>), C0(0, 3, <<3>>, <<<<3>>>>),
          C0(1, 4, <<0, 1>>, <<<<0, 1>>, <<4>>>>), C0(1, 5, <<1, 2>>, <<<<1, 2>>, <<5>>>>), C0(1, 6, <<0, 2>>, <<<<0, 2>>, <<6>>>>),
          C0(1, 7, <<1, 3>>, <<<<1, 3>>, <<7>>>>), C0(1, 8, <<2, 3>>, <<<<2, 3>>, <<8>>>>),
          C0(2, 9, <<0, 1, 2>>, <<<<0, 1, 2>>, <<5, 6, 4>>, <<9>>>>), C0(2, 10, <<1, 3, 2>>, <<<<1, 3, 2>>, <<8, 5, 7>>, <<10>>>>)>>
Init == cells = Base /\ pts = <<10, 11, 12, 13>> /\ held = <<>> /\ n = 0
SeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : q[i] = q[j] => i = j
\* detach triangle i from everything at the vertices V: its faces at V become its own
Split(i, V) ==
    LET c == CellAt(cells, i)
        E == {e \in RangeOf(c.s[2]) : RangeOf(CellAt(cells, e).s[1]) \cap V # {}}
        vq == SeqOf(V)  eq == SeqOf(E)
        vs0 == [k \in DOMAIN vq |-> CopyAs(CellAt(cells, vq[k]), NextId(cells) + k - 1, None)]
        vs == OwnNodes(pts, vs0)
        es == [k \in DOMAIN eq |-> CopyAs(CellAt(cells, eq[k]), NextId(cells) + Len(vq) + k - 1, None)]
        all == AddCells(AddCells(cells, vs), es)
        vr == [k \in DOMAIN vq |-> <<vq[k], vs[k].id>>]
        er == [k \in DOMAIN eq |-> <<eq[k], es[k].id>>]
    IN /\ pts' = OwnPlaces(pts, vs0)
       /\ cells' = Reroute(Reroute(all, {e.id : e \in RangeOf(es)}, <<vr>>), {i}, <<vr, er>>)
DoSplit == \E i \in {9, 10}, V \in SUBSET {1, 2} : V # {} /\ V \subseteq RangeOf(CellAt(cells, i).s[1]) /\ Split(i, V) /\ held' = held
DoPoints == pts' = AddPoints(pts, <<20>>) /\ UNCHANGED <<cells, held>>
DoTake == \E i \in 0..(Len(cells) - 1), k \in {0, 1} : held = <<>> /\ held' = <<CopyAs(CellAt(cells, i), NextId(cells) - k, 7)>> /\ UNCHANGED <<cells, pts>>
DoStray == held # <<>> /\ held' = <<[held[1] EXCEPT !.x[1] = 3]>> /\ UNCHANGED <<cells, pts>>
DoGive == held # <<>> /\ cells' = AddCells(cells, held) /\ held' = <<>> /\ UNCHANGED pts
Next == n < Steps /\ n' = n + 1 /\ (DoSplit \/ DoPoints \/ DoTake \/ DoStray \/ DoGive)
Spec == Init /\ [][Next]_vars
Sound == IdsArePositions(cells)
\* untouched by stray copies: without a stray copy given back, nodes follow vertices and faces lie in their cells
NoStray == \A k \in DOMAIN cells : cells[k].t # 7
Consistent == NoStray => NodesMatch(cells) /\ FacesMatch(cells)
\* growing and splitting move nothing
Geometry == NoStray => \A k \in 1..11 : PlacesOf(cells, pts, k - 1) = PlacesOf(Base, <<10, 11, 12, 13>>, k - 1)
Inv == Sound /\ Consistent /\ Geometry
Monotone == [][Len(cells') >= Len(cells) /\ Len(pts') >= Len(pts)
               /\ (\A k \in DOMAIN pts : pts'[k] = pts[k])
               /\ (\A k \in DOMAIN cells : cells'[k] # cells[k] => cells[k].d = 2)]_vars
\* once both vertices are split off, the two triangles share nothing
Parted == [][\A i \in {9, 10} : (n < Steps /\ Split(i, {1, 2})) =>
               \A k \in 1..2 : RangeOf(cells'[10].s[k]) \cap RangeOf(cells'[11].s[k]) = {}]_vars
=============================================================================
