------------------------------- MODULE Solve --------------------------------
(* Boundary value problems as systems of differential equations between     *)
(* polynomials.  Strong(e): the fields of e solve the problem of e.form     *)
(* with the coefficients and the load of e; the conditions on the boundary  *)
(* are values of the solution and flows through facets.                     *)
EXTENDS WeakForms

ZeroP == << <<0, 0, 0, 0>> >>
GradOf(p, d) == [i \in 1..d |-> Diff(p, i)]
GradRows(u, d) == TLCEval([c \in DOMAIN u |-> GradOf(u[c][1], d)])
RotRows(t, d) == IF d = 2 THEN << << ZeroP, Scale(-1, t[1][1]) >>, << t[1][1], ZeroP >> >>
                 ELSE << << ZeroP, Scale(-1, t[3][1]), t[2][1] >>, << t[3][1], ZeroP, Scale(-1, t[1][1]) >>, << Scale(-1, t[2][1]), t[1][1], ZeroP >> >>
AsymRows(s) == IF Len(s) = 2 THEN << Plus(s[2][1], Scale(-1, s[1][2])) >>
               ELSE << Plus(s[3][2], Scale(-1, s[2][3])), Plus(s[1][3], Scale(-1, s[3][1])), Plus(s[2][1], Scale(-1, s[1][2])) >>
PlusRows(A, X2) == TLCEval([c \in DOMAIN A |-> [i \in DOMAIN A[c] |-> Plus(A[c][i], X2[c][i])]])
TimesRows(p, A) == TLCEval([c \in DOMAIN A |-> [i \in DOMAIN A[c] |-> Times(p, A[c][i])]])
ScaleRows(k, A) == TimesRows(<< <<k, 0, 0, 0>> >>, A)
TraceRows(A) == IF Len(A) = 2 THEN Plus(A[1][1], A[2][2]) ELSE Plus(A[1][1], Plus(A[2][2], A[3][3]))
\* 2 mu sym E + lambda tr E I + 2 kappa skew E
LawRows(lam, mu, kap, E) ==
    TLCEval([c \in DOMAIN E |-> [i \in DOMAIN E[c] |->
        Plus(Times(Plus(mu, kap), E[c][i]), Plus(Times(Plus(mu, Scale(-1, kap)), E[i][c]), IF c = i THEN Times(lam, TraceRows(E)) ELSE ZeroP))]])
DivRows(s, d) == TLCEval([c \in DOMAIN s |-> << DivRow(s[c], d) >>])
SameRows(A, X2) == DOMAIN A = DOMAIN X2 /\ \A c \in DOMAIN A : DOMAIN A[c] = DOMAIN X2[c] /\ \A i \in DOMAIN A[c] : EqualPoly(A[c][i], X2[c][i])

Solvable == {"laplace_primal", "laplace_dual", "unscaled", "degenerate", "le_primal", "le_taylor_hood", "le_dual", "lce_primal", "lce_dual", "lce_scaled_dual"}
\* the stress of a displacement (and rotation), and the couple stress of a rotation
StressOf(e) ==
    LET w == e.w d == e.dim c == e.law IN
    CASE e.form \in {"le_primal", "le_taylor_hood", "le_dual"} -> LawRows(c.lambda, c.mu, ZeroP, GradRows(w.u, d))
      [] OTHER -> LawRows(c.lambda, c.mu, c.kappa, PlusRows(GradRows(w.u, d), RotRows(w.t, d)))
CoupleOf(e) ==
    LET w == e.w d == e.dim c == e.law G == GradRows(w.t, d) IN
    CASE e.form = "lce_primal" -> TimesRows(c.gamma, G)
      [] OTHER -> TimesRows(c.l, IF d = 2 THEN TimesRows(Plus(c.muo, c.kappao), G) ELSE LawRows(c.lambdao, c.muo, c.kappao, G))
Strong(e) ==
    LET w == e.w d == e.dim c == e.law IN
    CASE e.form = "laplace_primal" -> SameRows(e.rhs, ScaleRows(-1, DivRows(TimesRows(c.kappa, GradRows(w.p, d)), d)))
      [] e.form = "laplace_dual" ->
           /\ SameRows(TimesRows(c.k, w.u), ScaleRows(-1, GradRows(w.p, d)))
           /\ SameRows(e.rhs, DivRows(w.u, d))
      [] e.form = "unscaled" ->
           /\ SameRows(TimesRows(Times(c.h, c.h), w.u), ScaleRows(-1, GradRows(w.p, d)))
           /\ SameRows(TimesRows(c.g, e.rhs), PlusRows(DivRows(w.u, d), TimesRows(Times(c.g, c.g), w.p)))
      [] e.form = "degenerate" ->
           /\ SameRows(w.v, ScaleRows(-1, TimesRows(c.delta, GradRows(TimesRows(c.g, w.q), d))))
           /\ SameRows(e.rhs, PlusRows(w.q, TimesRows(c.g, DivRows(TimesRows(c.delta, w.v), d))))
      [] e.form = "le_primal" -> SameRows(e.rhs, DivRows(StressOf(e), d))
      [] e.form = "le_taylor_hood" ->
           /\ SameRows(w.p, TimesRows(Plus(c.lambda, c.mu), << << TraceRows(GradRows(w.u, d)) >> >>))
           /\ SameRows(e.rhs, DivRows(StressOf(e), d))
      [] e.form = "le_dual" ->
           LET G == GradRows(w.u, d) A == AsymRows(G) IN
           /\ SameRows(w.s, StressOf(e))
           /\ SameRows(ScaleRows(2, w.t), [i \in DOMAIN A |-> << Scale(-1, A[i]) >>])
           /\ SameRows(e.rhs, DivRows(w.s, d) \o [i \in DOMAIN w.t |-> << ZeroP >>])
      [] e.form = "lce_primal" ->
           LET A == AsymRows(StressOf(e)) D == DivRows(CoupleOf(e), d) IN
           SameRows(e.rhs, DivRows(StressOf(e), d) \o [i \in DOMAIN w.t |-> << Plus(D[i][1], Scale(-1, A[i])) >>])
      [] e.form \in {"lce_dual", "lce_scaled_dual"} ->
           LET A == AsymRows(w.s)
               D == DivRows(IF e.form = "lce_dual" THEN w.m ELSE TimesRows(c.l, w.m), d) IN
           /\ SameRows(w.s, StressOf(e))
           /\ SameRows(w.m, CoupleOf(e))
           /\ SameRows(e.rhs, DivRows(w.s, d) \o [i \in DOMAIN w.t |-> << Plus(D[i][1], Scale(-1, A[i])) >>])
\* what is prescribed on the boundary: the fields that a weakly imposed condition fixes ...
ValuesOf(e) == CASE e.form \in {"laplace_primal", "laplace_dual", "unscaled"} -> e.w.p
                 [] e.form = "degenerate" -> e.w.q
                 [] e.form \in {"le_primal", "le_taylor_hood", "le_dual"} -> e.w.u
                 [] OTHER -> e.w.u \o e.w.t
\* ... or the flow through a facet with (integer, outward) normal n
FlowRows(rows, n) == TLCEval([c \in DOMAIN rows |-> << LET z(i) == Scale(n[i], rows[c][i]) IN
                         IF Len(rows[c]) = 2 THEN Plus(z(1), z(2)) ELSE Plus(z(1), Plus(z(2), z(3))) >>])
FlowsOf(e, n) == CASE e.form = "le_primal" -> ScaleRows(-1, FlowRows(StressOf(e), n))
                   [] e.form = "le_dual" -> FlowRows(e.w.s, n)
                   [] OTHER -> FlowRows(e.w.s, n) \o FlowRows(e.w.m, n)
=============================================================================
