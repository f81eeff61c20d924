--------------------------- MODULE SegmentsTrace ---------------------------
(* Verdicts on observed answers of the point / segment / triangle          *)
(* predicates; every event is decided exactly in integers.                 *)
EXTENDS Vec3, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)

\* the points one segment pair must report, when unique
Expected(a, b, c, d) == \* sequence of <<num, den>>
    IF ~SegmentsMeet(a, b, c, d) THEN <<>>
    ELSE IF Parallel(a, b, c, d) THEN << <<CHOOSE p \in CommonEnds(a, b, c, d) : TRUE, 1>> >>
    ELSE << <<XNum(a, b, c, d), XDen(a, b, c, d)>> >>
NearRat(o, r) == Near(o, r[1], r[2])
Overlap(a, b, c, d) == Parallel(a, b, c, d) /\ Cardinality(CommonEnds(a, b, c, d)) > 1
\* obs lies on a grid-aligned overlap: it must be one of the four ends
SegVerdict(e) ==
    LET meet == SegmentsMeet(e.a, e.b, e.c, e.d)
        ends == CommonEnds(e.a, e.b, e.c, e.d) IN
    {n \in {"none-iff-disjoint", "the-common-point", "overlap-reported"} :
       \/ n = "none-iff-disjoint" /\ (meet # (e.pts # <<>>))
       \/ n = "the-common-point" /\ meet /\ ~Overlap(e.a, e.b, e.c, e.d) /\ e.pts # <<>>
            /\ ~(Len(e.pts) = 1 /\ NearRat(e.pts[1], Expected(e.a, e.b, e.c, e.d)[1]))
       \/ n = "overlap-reported" /\ Overlap(e.a, e.b, e.c, e.d) /\ e.pts # <<>>
            /\ ~(/\ \A i \in DOMAIN e.pts : \E p \in ends : NearPoint(e.pts[i], p)
                 /\ (ends = {e.a, e.b} \/ ends \cap {e.a, e.b} = {}) => \A p \in ends : \E i \in DOMAIN e.pts : NearPoint(e.pts[i], p))}

PointVerdict(e) ==
    LET on == OnSegment(e.p, e.a, e.b) IN
    {n \in {"on-segment", "returns-the-point", "on-line"} :
       \/ n = "on-segment" /\ on # e.hit
       \/ n = "returns-the-point" /\ e.hit /\ ~NearPoint(e.pt, e.p)
       \/ n = "on-line" /\ e.online # Collinear(e.a, e.b, e.p)}
TriVerdict(e) ==
    {n \in {"in-triangle", "returns-the-point", "in-plane"} :
       \/ n = "in-triangle" /\ InTriangle(e.p, e.a, e.b, e.c) # e.hit
       \/ n = "returns-the-point" /\ e.hit /\ ~NearPoint(e.pt, e.p)
       \/ n = "in-plane" /\ e.inplane # InPlane(e.p, e.a, e.b, e.c)}
MaskVerdict(e) ==
    LET In(p) == IF e.ev = "points" THEN OnSegment(p, e.a, e.b) ELSE InTriangle(p, e.a, e.b, e.c)
        idx == SelectSeq([i \in 1..Len(e.ps) |-> i], LAMBDA i : In(e.ps[i])) IN
    {n \in {"mask", "listed-points"} :
       \/ n = "mask" /\ e.mask # [i \in DOMAIN e.ps |-> In(e.ps[i])]
       \/ n = "listed-points" /\ ~(Len(e.pts) = Len(idx) /\ \A i \in DOMAIN idx : NearPoint(e.pts[i], e.ps[idx[i]]))}
SortVerdict(e) ==
    LET o == IF e.rev THEN e.b ELSE e.a IN
    {n \in {"is-permutation", "sorted-by-distance"} :
       \/ n = "is-permutation" /\ ~(Len(e.idx) = Len(e.ps) /\ {e.idx[i] : i \in DOMAIN e.idx} = 0..(Len(e.ps) - 1))
       \/ n = "sorted-by-distance" /\ \E i \in 1..(Len(e.idx) - 1) :
             Norm2(Sub(e.ps[e.idx[i] + 1], o)) > Norm2(Sub(e.ps[e.idx[i + 1] + 1], o))}

\* results over lists: in order, one point per meeting segment (overlapping segments are not mixed in)
ExpectedList(lines, a, b) == SeqFlat([i \in DOMAIN lines |-> Expected(lines[i][1], lines[i][2], a, b)])
MatchSeq(obs, exp) == Len(obs) = Len(exp) /\ \A i \in DOMAIN exp : NearRat(obs[i], exp[i])
ListVerdict(e) == IF MatchSeq(e.out, ExpectedList(e.lines, e.a, e.b)) THEN {} ELSE {"list-in-order"}
OtherTools(tools, o) == SelectSeq(tools, LAMBDA t : t # o)
ListsVerdict(e) ==
    LET exp == [i \in DOMAIN e.objects |-> ExpectedList(OtherTools(e.tools, e.objects[i]), e.objects[i][1], e.objects[i][2])]
        all == {<<i, k>> \in (DOMAIN e.objects) \X (1..Len(e.tools)) : k \in DOMAIN exp[i]} IN
    IF e.dedupe THEN
      {n \in {"all-points", "no-point-twice", "only-points"} :
        \/ n = "all-points" /\ \E x \in all : ~\E k \in DOMAIN e.out : NearRat(e.out[k], exp[x[1]][x[2]])
        \/ n = "no-point-twice" /\ \E x \in all : Cardinality({k \in DOMAIN e.out : NearRat(e.out[k], exp[x[1]][x[2]])}) > 1
        \/ n = "only-points" /\ \E k \in DOMAIN e.out : ~\E x \in all : NearRat(e.out[k], exp[x[1]][x[2]])}
    ELSE {n \in {"one-list-per-object", "lists-in-order"} :
        \/ n = "one-list-per-object" /\ Len(e.outs) # Len(e.objects)
        \/ n = "lists-in-order" /\ Len(e.outs) = Len(e.objects) /\ \E i \in DOMAIN exp : ~MatchSeq(e.outs[i], exp[i])}
\* a segment that meets several of the lines in overlaps: every overlap contributes
OverlapListVerdict(e) ==
    LET meets == \E i \in DOMAIN e.lines : SegmentsMeet(e.lines[i][1], e.lines[i][2], e.a, e.b) IN
    {n \in {"none-iff-disjoint", "agrees-with-single-answers"} :
      \/ n = "none-iff-disjoint" /\ (e.out # <<>>) # meets
      \/ n = "agrees-with-single-answers" /\ e.out # SeqFlat(e.singles)}

Verdict(e) ==
    IF e.err # "" THEN {"answers"}
    ELSE CASE e.ev = "segments" -> SegVerdict(e)
           [] e.ev = "point" -> PointVerdict(e)
           [] e.ev = "triangle" -> TriVerdict(e)
           [] e.ev \in {"points", "triangles"} -> MaskVerdict(e)
           [] e.ev = "sort" -> SortVerdict(e)
           [] e.ev = "list" -> ListVerdict(e)
           [] e.ev = "overlaplist" -> OverlapListVerdict(e)
           [] e.ev = "lists" -> ListsVerdict(e)

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
