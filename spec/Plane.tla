------------------------------- MODULE Plane -------------------------------
(* Exact integer geometry shared by the geometric specifications.          *)
EXTENDS Integers, Sequences, FiniteSets

PX(p) == p[1]
PY(p) == p[2]
Cross2(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Dot2(a, b, c) == (b[1] - a[1]) * (c[1] - a[1]) + (b[2] - a[2]) * (c[2] - a[2])
\* thrice the barycentre of a triangle relative to a, crossed with b - a: > 0 iff the triangle lies left of a -> b
TriSide(a, b, p, q, r) ==
    LET sx == p[1] + q[1] + r[1] - 3 * a[1]
        sy == p[2] + q[2] + r[2] - 3 * a[2]
    IN (b[1] - a[1]) * sy - (b[2] - a[2]) * sx
SegSide(a, b, p, q) ==
    LET sx == p[1] + q[1] - 2 * a[1]
        sy == p[2] + q[2] - 2 * a[2]
    IN (b[1] - a[1]) * sy - (b[2] - a[2]) * sx
===========================================================================
