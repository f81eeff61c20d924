------------------------------- MODULE Vec3 --------------------------------
(* Exact integer vector geometry in space: sets are decided by signs of    *)
(* integer expressions, points of intersection are rationals <<num, den>>. *)
EXTENDS Integers, Sequences, FiniteSets

Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Scale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Zero == <<0, 0, 0>>
Norm2(a) == Dot(a, a)
AbsV(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

Collinear(a, b, c) == Cross(Sub(b, a), Sub(c, a)) = Zero
OnSegment(p, a, b) == Collinear(a, b, p) /\ Dot(Sub(p, a), Sub(b, a)) >= 0 /\ Dot(Sub(p, a), Sub(b, a)) <= Norm2(Sub(b, a))
Parallel(a, b, c, d) == Cross(Sub(b, a), Sub(d, c)) = Zero

\* --- two segments ---------------------------------------------------------
\* crossing of non-parallel segments: a + (tn/den) (b - a) = c + (sn/den) (d - c), den > 0, when the lines meet
XDen(a, b, c, d) == Norm2(Cross(Sub(b, a), Sub(d, c)))
XT(a, b, c, d) == Dot(Cross(Sub(c, a), Sub(d, c)), Cross(Sub(b, a), Sub(d, c)))
XS(a, b, c, d) == Dot(Cross(Sub(c, a), Sub(b, a)), Cross(Sub(b, a), Sub(d, c)))
LinesMeet(a, b, c, d) == Dot(Cross(Sub(b, a), Sub(d, c)), Sub(c, a)) = 0
CrossAtOnePoint(a, b, c, d) ==
    /\ ~Parallel(a, b, c, d)
    /\ LinesMeet(a, b, c, d)
    /\ XT(a, b, c, d) \in 0..XDen(a, b, c, d)
    /\ XS(a, b, c, d) \in 0..XDen(a, b, c, d)
\* numerators of the crossing over XDen
XNum(a, b, c, d) == Add(Scale(XDen(a, b, c, d), a), Scale(XT(a, b, c, d), Sub(b, a)))
\* extreme points of the intersection of parallel segments (integers)
CommonEnds(a, b, c, d) == {p \in {a, b} : OnSegment(p, c, d)} \cup {p \in {c, d} : OnSegment(p, a, b)}
SegmentsMeet(a, b, c, d) == IF Parallel(a, b, c, d) THEN CommonEnds(a, b, c, d) # {} ELSE CrossAtOnePoint(a, b, c, d)
MeetInOnePoint(a, b, c, d) == IF Parallel(a, b, c, d) THEN Cardinality(CommonEnds(a, b, c, d)) = 1 ELSE CrossAtOnePoint(a, b, c, d)

\* --- triangles --------------------------------------------------------------
Normal(a, b, c) == Cross(Sub(b, a), Sub(c, a))
InPlane(p, a, b, c) == Dot(Normal(a, b, c), Sub(p, a)) = 0
InTriangle(p, a, b, c) ==
    LET n == Normal(a, b, c) IN
      /\ InPlane(p, a, b, c)
      /\ Dot(n, Cross(Sub(b, a), Sub(p, a))) >= 0
      /\ Dot(n, Cross(Sub(c, b), Sub(p, b))) >= 0
      /\ Dot(n, Cross(Sub(a, c), Sub(p, c))) >= 0

\* --- observed coordinates ---------------------------------------------------
\* an observed coordinate is recorded as the integer nearest to Unit times its value
Unit == 10000
Near(obs, num, den) == \A i \in 1..3 : AbsV(obs[i] * den - Unit * num[i]) <= den
NearPoint(obs, p) == Near(obs, p, 1)
\* obs is a point of the segment [a, b] up to the recording precision (integer data only)
RECURSIVE SeqFlat(_)
SeqFlat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o SeqFlat(Tail(q))
===========================================================================
