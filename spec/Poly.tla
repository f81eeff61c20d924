------------------------------- MODULE Poly --------------------------------
(* Exact calculus of polynomial fields on affine simplices.                *)
(* A polynomial is a sequence of terms <<c, a, b, d>> for c x^a y^b z^d.    *)
(* All arithmetic is exact in the field Z/M (M prime): evaluation,          *)
(* differentiation and integration over a simplex with integer corners are  *)
(* ring operations with denominators below M, so a value computed by the    *)
(* implementation, multiplied by a known denominator, must be an integer    *)
(* with the residue computed here.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

M == 32749
Md(a) == a % M
RECURSIVE PowM(_, _)
PowM(a, k) == IF k = 0 THEN 1 ELSE IF k % 2 = 0 THEN PowM(Md(a * a), k \div 2) ELSE Md(a * PowM(a, k - 1))
InvTab == [a \in 1..420 |-> PowM(a, M - 2)]
Inv(a) == IF a \in 1..420 THEN InvTab[a] ELSE PowM(Md(a), M - 2)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE Md(n * Fact(n - 1))

RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE Md(F(n) + SumTo(F, n - 1))

\* ---- polynomials
Eval(p, X) ==
    LET pw == [i \in 1..3 |-> LET S == {p[j][i + 1] : j \in DOMAIN p} IN [k \in S |-> PowM(X[i], k)]]
        term(j) == Md(Md(Md(p[j][1]) * pw[1][p[j][2]]) * Md(pw[2][p[j][3]] * pw[3][p[j][4]]))
    IN SumTo(term, Len(p))
Diff(p, i) == [j \in DOMAIN p |-> LET k == p[j][i + 1] IN
                 IF k = 0 THEN <<0, 0, 0, 0>>
                 ELSE [p[j] EXCEPT ![1] = @ * k, ![i + 1] = @ - 1]]
Scale(c, p) == [j \in DOMAIN p |-> [p[j] EXCEPT ![1] = @ * c]]
Plus(p, q) == p \o q
Times(p, q) ==
    IF p = <<>> \/ q = <<>> THEN <<>>
    ELSE [j \in 1..(Len(p) * Len(q)) |->
             LET a == p[((j - 1) \div Len(q)) + 1]
                 b == q[((j - 1) % Len(q)) + 1]
             IN <<Md(Md(a[1]) * Md(b[1])), a[2] + b[2], a[3] + b[3], a[4] + b[4]>>]
\* terms of equal exponents collected, zero terms dropped
Exps(p) == {<<p[j][2], p[j][3], p[j][4]>> : j \in DOMAIN p}
Coef(p, x) == LET f(j) == IF <<p[j][2], p[j][3], p[j][4]>> = x THEN Md(p[j][1]) ELSE 0 IN SumTo(f, Len(p))
Support(p) == {x \in Exps(p) : Coef(p, x) # 0}
Deg3(x) == x[1] + x[2] + x[3]
DegMost(p, k) == \A x \in Support(p) : Deg3(x) <= k
Part(p, k) == SelectSeq(p, LAMBDA t : t[2] + t[3] + t[4] = k)
EqualPoly(p, q) == Support(Plus(p, Scale(-1, q))) = {}
Coord(i) == << <<1, IF i = 1 THEN 1 ELSE 0, IF i = 2 THEN 1 ELSE 0, IF i = 3 THEN 1 ELSE 0>> >>

\* ---- simplices: V is a sequence of n+1 integer points of space
Minus3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
AbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Root(_, _, _)
Root(a, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= a THEN Root(a, m, hi) ELSE Root(a, lo, m - 1)
ISqrt(a) == Root(a, 0, 40000)
Square2(V) == CASE Len(V) = 2 -> LET u == Minus3(V[2], V[1]) IN Dot3(u, u)
                [] Len(V) = 3 -> LET w == Cross3(Minus3(V[2], V[1]), Minus3(V[3], V[1])) IN Dot3(w, w)
\* n! times the volume; the harness chooses simplices where it is an integer
Weight(V) == CASE Len(V) = 1 -> 1
               [] Len(V) = 4 -> AbsI(Dot3(Minus3(V[2], V[1]), Cross3(Minus3(V[3], V[1]), Minus3(V[4], V[1]))))
               [] OTHER -> ISqrt(Square2(V))
Rational(V) == Len(V) \in {1, 4} \/ Weight(V) * Weight(V) = Square2(V)

\* the point with integer barycentric coordinates lam over the denominator q
At(V, lam, q) == [i \in 1..3 |-> LET f(j) == Md(lam[j] * V[j][i]) IN Md(SumTo(f, Len(V)) * Inv(q))]

\* Grundmann-Moeller rule of degree 2s+1 on the n-simplex, as <<weight, barycentric numerators, denominator>>,
\* for the simplex of volume 1/n!
RECURSIVE Bary(_, _)
Bary(n, t) == IF n = 0 THEN {<<t>>} ELSE UNION {{<<a>> \o b : b \in Bary(n - 1, t - a)} : a \in 0..t}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Rule(n, s) ==
    LET d == 2 * s + 1
        level(i) == LET w == Md(Md((IF i % 2 = 0 THEN 1 ELSE -1) * PowM(Inv(2), 2 * s))
                              * Md(Md(PowM(d + n - 2 * i, d) * Inv(Fact(i))) * Inv(Fact(d + n - i))))
                    IN {<<w, [j \in 1..(n + 1) |-> 2 * b[j] + 1], d + n - 2 * i>> : b \in Bary(n, s - i)}
    IN SeqOf(UNION {level(i) : i \in 0..s})
Rules == [n \in 1..3 |-> [s \in 0..4 |-> Rule(n, s)]]
\* integral over the simplex V of the function F (a polynomial of degree at most 2s+1), F applied to points
IntF(V, s, F(_)) ==
    IF Len(V) = 1 THEN F([i \in 1..3 |-> Md(V[1][i])])
    ELSE LET R == Rules[Len(V) - 1][s]
             g(j) == Md(R[j][1] * Md(F(At(V, R[j][2], R[j][3]))))
         IN Md(Md(Weight(V)) * SumTo(g, Len(R)))
Integral(V, s, p) == IntF(V, s, LAMBDA X : Eval(p, X))
=============================================================================
