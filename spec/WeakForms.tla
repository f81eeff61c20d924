----------------------------- MODULE WeakForms ------------------------------
(* The weak forms of the library as pointwise integrands.                   *)
(* A problem is a bilinear form B(w, v) and a load L(v); a weak form of the *)
(* implementation delivers, per cell or boundary facet, a matrix J and a    *)
(* vector r with  v.J.w = int B(w, v)  and  v.r = int L(v)  for all fields  *)
(* w, v of the space.  Coefficients appear as the polynomials named here    *)
(* (c.q = 1/(2 mu), c.rho = lambda/(2 mu + dim lambda), ...).               *)
EXTENDS Field

\* ---- tensors of one point: sequences of rows, entries mod M
Vals(rows, P) == TLCEval([c \in DOMAIN rows |-> TLCEval([i \in DOMAIN rows[c] |-> Eval(rows[c][i], P)])])
Divs(rows, d, P) == TLCEval([c \in DOMAIN rows |-> Eval(DivRow(rows[c], d), P)])
Grad(rows, d, P) == TLCEval([c \in DOMAIN rows |-> TLCEval([i \in 1..d |-> Eval(Diff(rows[c][1], i), P)])])
Col(rows, P) == TLCEval([c \in DOMAIN rows |-> Eval(rows[c][1], P)])      \* scalar families: the vector of components
Half == Inv(2)
Dot(a, b) == LET f(i) == Md(a[i] * b[i]) IN SumTo(f, Len(a))
Twice(A, B) == LET f(c) == Dot(A[c], B[c]) IN SumTo(f, Len(A))              \* A : B
TwiceT(A, B) == LET f(c) == LET g(i) == Md(A[c][i] * B[i][c]) IN SumTo(g, Len(A[c])) IN SumTo(f, Len(A))   \* A : B^T
Tr(A) == LET f(c) == A[c][c] IN SumTo(f, Len(A))
SymIn(A, B) == Md(Half * Md(Twice(A, B) + TwiceT(A, B)))                     \* sym A : B
SkewIn(A, B) == Md(Half * Md(Twice(A, B) - TwiceT(A, B)))                    \* skew A : B
Asym(A) == IF Len(A) = 2 THEN <<Md(A[2][1] - A[1][2])>>
           ELSE <<Md(A[3][2] - A[2][3]), Md(A[1][3] - A[3][1]), Md(A[2][1] - A[1][2])>>
\* the rotation tensor of t; RotIn(t, A) = Rot(t) : A = t . Asym(A)
RotIn(t, A) == Dot(t, Asym(A))
Rot(t) == IF Len(t) = 1 THEN << <<0, Md(-t[1])>>, <<t[1], 0>> >>
          ELSE << <<0, Md(-t[3]), t[2]>>, <<t[3], 0, Md(-t[1])>>, <<Md(-t[2]), t[1], 0>> >>
Add(A, B) == [c \in DOMAIN A |-> [i \in DOMAIN A[c] |-> Md(A[c][i] + B[c][i])]]

\* ---- coefficients at a point
C(e, name, P) == Eval(e.coef[name], P)
Hook(e, P, S, T) == Md(Md(2 * Md(C(e, "mu", P) * SymIn(S, T))) + Md(C(e, "lambda", P) * Md(Tr(S) * Tr(T))))
RhoOf(e, name, P) == Md(C(e, name, P) * Inv(64))
\* compliance of a (couple) stress: q (sym A - rho tr A I) + k skew A
Compliance(q, rho, k, A, T) == Md(Md(q * Md(SymIn(A, T) - Md(rho * Md(Tr(A) * Tr(T))))) + Md(k * SkewIn(A, T)))
Whole(q, rho, A, T) == Md(q * Md(Twice(A, T) - Md(rho * Md(Tr(A) * Tr(T)))))
\* divergence of a couple stress scaled by the length l
ScaledDiv(e, rows, P) ==
    LET D == Divs(rows, e.dim, P) V == Vals(rows, P) l == C(e, "l", P)
        g == TLCEval([i \in 1..e.dim |-> Eval(Diff(e.coef["l"], i), P)])
    IN TLCEval([c \in DOMAIN rows |-> Md(Md(l * D[c]) + Dot(g, V[c]))])
\* divergence of the scaled flux: g (delta div v + grad delta . v)
FluxDiv(e, rows, P) ==
    LET dl == TLCEval([i \in 1..e.dim |-> Eval(Diff(e.coef["delta"], i), P)])
    IN IF e.dry THEN 0
       ELSE Md(C(e, "g", P) * Md(Md(C(e, "delta", P) * Divs(rows, e.dim, P)[1]) + Dot(dl, Vals(rows, P)[1])))

CoupleStress(e, P, A, T) ==
    IF e.dim = 2 THEN Md(C(e, "so", P) * Twice(A, T))
    ELSE Compliance(C(e, "qo", P), RhoOf(e, "rhoo", P), C(e, "ko", P), A, T)
Stress(e, P, A, T) == Compliance(C(e, "q", P), RhoOf(e, "rho", P), C(e, "k", P), A, T)

Forms == {"laplace_primal", "laplace_dual", "degenerate", "unscaled", "scaled_to_physical", "le_primal", "le_stress_constraint",
          "le_taylor_hood", "le_dual", "le_riesz", "lce_primal", "lce_dual", "lce_scaled_dual", "lce_riesz", "lce_scaled_riesz"}

B(e, P) ==
    LET w == e.w v == e.v d == e.dim
        G(rows) == Grad(rows, d, P)
    IN CASE e.form = "laplace_primal" -> Md(C(e, "kappa", P) * Twice(G(w.p), G(v.p)))
         [] e.form = "laplace_dual" ->
              Md(Md(C(e, "k", P) * Twice(Vals(w.u, P), Vals(v.u, P)))
                 + Md(Dot(Divs(w.u, d, P), Col(v.p, P)) - Dot(Col(w.p, P), Divs(v.u, d, P))))
         [] e.form = "degenerate" ->
              Md(Md(Twice(Vals(w.v, P), Vals(v.v, P)) + Dot(Col(w.q, P), Col(v.q, P)))
                 + Md(Md(FluxDiv(e, w.v, P) * Col(v.q, P)[1]) - Md(Col(w.q, P)[1] * FluxDiv(e, v.v, P))))
         [] e.form = "unscaled" ->
              LET h == C(e, "h", P) g == C(e, "g", P) IN
              Md(Md(Md(Md(h * h) * Twice(Vals(w.u, P), Vals(v.u, P))) + Md(Md(g * g) * Dot(Col(w.p, P), Col(v.p, P))))
                 + Md(Dot(Divs(w.u, d, P), Col(v.p, P)) - Dot(Col(w.p, P), Divs(v.u, d, P))))
         [] e.form = "scaled_to_physical" -> Md(Twice(Vals(w.v, P), Vals(v.v, P)) + Dot(Col(w.q, P), Col(v.q, P)))
         [] e.form \in {"le_primal", "le_stress_constraint"} -> Hook(e, P, G(w.u), G(v.u))
         [] e.form = "le_taylor_hood" ->
              LET gw == G(w.u) gv == G(v.u) pw == Col(w.p, P)[1] pv == Col(v.p, P)[1] IN
              Md(Md(Md(2 * C(e, "mu", P)) * Md(SymIn(gw, gv) - Md(Inv(d) * Md(Tr(gw) * Tr(gv)))))
                 + Md(Md(Md(pw * Tr(gv)) + Md(pv * Tr(gw))) - Md(C(e, "h", P) * Md(pw * pv))))
         [] e.form = "le_dual" ->
              LET A == Vals(w.s, P) T == Vals(v.s, P) IN
              Md(Md(Whole(C(e, "q", P), RhoOf(e, "rho", P), A, T)
                    + Md(Dot(Col(w.u, P), Divs(v.s, d, P)) + Dot(Divs(w.s, d, P), Col(v.u, P))))
                 - Md(RotIn(Col(w.t, P), T) + RotIn(Col(v.t, P), A)))
         [] e.form = "le_riesz" ->
              LET A == Vals(w.s, P) T == Vals(v.s, P) IN
              Md(Md(Whole(C(e, "q", P), RhoOf(e, "rho", P), A, T) + Dot(Divs(w.s, d, P), Divs(v.s, d, P)))
                 + Md(Dot(Col(w.u, P), Col(v.u, P)) + Dot(Col(w.t, P), Col(v.t, P))))
         [] e.form = "lce_primal" ->
              LET E == Add(G(w.u), Rot(Col(w.t, P))) F == Add(G(v.u), Rot(Col(v.t, P))) IN
              Md(Md(Hook(e, P, E, F) + Md(Md(2 * C(e, "kappa", P)) * SkewIn(E, F)))
                 + Md(C(e, "gamma", P) * Twice(G(w.t), G(v.t))))
         [] e.form \in {"lce_dual", "lce_scaled_dual"} ->
              LET A == Vals(w.s, P) T == Vals(v.s, P)
                  mo == CoupleStress(e, P, Vals(w.m, P), Vals(v.m, P))
                  Dv(rows) == IF e.form = "lce_dual" THEN Divs(rows, d, P) ELSE ScaledDiv(e, rows, P)
              IN Md(Md(Md(Stress(e, P, A, T) + (IF e.form = "lce_dual" THEN Md(C(e, "li", P) * mo) ELSE mo))
                       + Md(Dot(Col(w.u, P), Divs(v.s, d, P)) + Dot(Divs(w.s, d, P), Col(v.u, P))))
                    + Md(Md(Dot(Col(w.t, P), Dv(v.m)) + Dot(Dv(w.m), Col(v.t, P)))
                         - Md(RotIn(Col(w.t, P), T) + RotIn(Col(v.t, P), A))))
         [] e.form \in {"lce_riesz", "lce_scaled_riesz"} ->
              LET A == Vals(w.s, P) T == Vals(v.s, P)
                  mo == CoupleStress(e, P, Vals(w.m, P), Vals(v.m, P))
                  Dv(rows) == IF e.form = "lce_riesz" THEN Divs(rows, d, P) ELSE ScaledDiv(e, rows, P)
              IN Md(Md(Md(Stress(e, P, A, T) + (IF e.form = "lce_riesz" THEN Md(C(e, "li", P) * mo) ELSE mo))
                       + Md(Dot(Divs(w.s, d, P), Divs(v.s, d, P)) + Dot(Dv(w.m), Dv(v.m))))
                    + Md(Dot(Col(w.u, P), Col(v.u, P)) + Dot(Col(w.t, P), Col(v.t, P))))
L(e, P) ==
    LET v == e.v d == e.dim
        Fu == Dot(Col(e.rhs, P), Col(v.u, P))
        Fut == LET f == Col(e.rhs, P) u == Col(v.u, P) t == Col(v.t, P)
                   a(i) == IF i <= Len(u) THEN Md(f[i] * u[i]) ELSE Md(f[i] * t[i - Len(u)])
               IN SumTo(a, Len(u) + Len(t))
    IN CASE e.form \in {"laplace_primal", "laplace_dual"} -> Md(-Dot(Col(e.rhs, P), Col(v.p, P)))
         [] e.form = "degenerate" -> Md(-Dot(Col(e.rhs, P), Col(v.q, P)))
         [] e.form = "unscaled" -> Md(-(C(e, "g", P) * Dot(Col(e.rhs, P), Col(v.p, P))))
         [] e.form = "scaled_to_physical" ->
              LET dl == IF e.dry THEN 1 ELSE C(e, "delta", P) g == IF e.dry THEN 1 ELSE C(e, "g", P) IN
              Md(-(Md(dl * Twice(Vals(e.given.v, P), Vals(v.v, P))) + Md(g * Dot(Col(e.given.q, P), Col(v.q, P)))))
         [] e.form \in {"le_primal", "le_taylor_hood"} -> Fu
         [] e.form = "le_stress_constraint" -> Md(-Twice(Vals(e.rhs, P), Grad(v.u, d, P)))
         [] e.form \in {"le_dual", "lce_dual", "lce_scaled_dual"} -> Md(-Fut)
         [] e.form = "lce_primal" -> Fut
         [] e.form \in {"le_riesz", "lce_riesz", "lce_scaled_riesz"} -> 0

\* ---- boundary terms on a facet with integer normal N of length Weight (outward)
NormalOf(V, opp) ==
    LET raw == CASE Len(V) = 3 -> Cross3(Minus3(V[2], V[1]), Minus3(V[3], V[1]))
                 [] Len(V) = 2 -> <<V[2][2] - V[1][2], V[1][1] - V[2][1], 0>>
                 [] Len(V) = 1 -> <<1, 0, 0>>
    IN IF Dot3(raw, Minus3(V[1], opp)) > 0 THEN raw ELSE <<-raw[1], -raw[2], -raw[3]>>
BForms == {"laplace_dual_bc", "degenerate_bc", "unscaled_bc", "le_dual_bc", "lce_dual_bc", "lce_scaled_dual_bc", "laplace_primal_bc",
           "le_primal_bc", "le_taylor_hood_bc", "lce_primal_bc", "le_neumann", "le_normal_bc", "le_dual_neumann", "lce_dual_neumann", "lce_scaled_dual_neumann"}
\* integral over the facet of F without the area factor
Mean(V, s, F(_)) ==
    IF Len(V) = 1 THEN Md(F([i \in 1..3 |-> Md(V[1][i])]))
    ELSE LET R == Rules[Len(V) - 1][s]
             g(j) == Md(R[j][1] * Md(F(At(V, R[j][2], R[j][3]))))
         IN SumTo(g, Len(R))
Flow(rows, N, P) == LET A == Vals(rows, P) IN TLCEval([c \in DOMAIN A |-> LET f(i) == Md(A[c][i] * N[i]) IN SumTo(f, Len(A[c]))])
Area(V) == Md(Weight(V))
BB(e, V, N, P) ==
    LET w == e.w v == e.v IN
    CASE e.form = "laplace_primal_bc" -> Md(Area(V) * Dot(Col(w.p, P), Col(v.p, P)))
      [] e.form \in {"le_primal_bc", "le_taylor_hood_bc"} -> Md(Area(V) * Dot(Col(w.u, P), Col(v.u, P)))
      [] e.form = "lce_primal_bc" -> Md(Area(V) * Md(Dot(Col(w.u, P), Col(v.u, P)) + Dot(Col(w.t, P), Col(v.t, P))))
      [] e.form = "le_normal_bc" ->
           LET un == LET u == Col(w.u, P) f(i) == Md(u[i] * N[i]) IN SumTo(f, Len(u))
               vn == LET u == Col(v.u, P) f(i) == Md(u[i] * N[i]) IN SumTo(f, Len(u))
           IN Md(Inv(Area(V)) * Md(un * vn))
      [] e.form = "le_dual_neumann" -> Md(Inv(Area(V)) * Dot(Flow(w.s, N, P), Flow(v.s, N, P)))
      [] e.form \in {"lce_dual_neumann", "lce_scaled_dual_neumann"} ->
           Md(Inv(Area(V)) * Md(Dot(Flow(w.s, N, P), Flow(v.s, N, P)) + Dot(Flow(w.m, N, P), Flow(v.m, N, P))))
      [] OTHER -> 0
LB(e, V, N, P) ==
    LET v == e.v g == Col(e.rhs, P)
        Later(n) == [i \in 1..(Len(g) - n) |-> g[i + n]]
    IN
    CASE e.form \in {"laplace_dual_bc", "unscaled_bc"} -> Dot(g, Flow(v.u, N, P))
      [] e.form = "degenerate_bc" -> LET f == IF e.dry THEN 1 ELSE Md(C(e, "delta", P) * C(e, "g", P))
                                     IN Md(f * Dot(g, Flow(v.v, N, P)))
      [] e.form = "le_dual_bc" -> Md(-Dot(Flow(v.s, N, P), g))
      [] e.form = "lce_dual_bc" -> Md(-(Dot(Flow(v.s, N, P), g) + Dot(Flow(v.m, N, P), Later(Len(v.s)))))
      [] e.form = "lce_scaled_dual_bc" -> Md(-(Dot(Flow(v.s, N, P), g) + Md(C(e, "l", P) * Dot(Flow(v.m, N, P), Later(Len(v.s))))))
      [] e.form = "laplace_primal_bc" -> Md(-(Area(V) * Dot(g, Col(v.p, P))))
      [] e.form \in {"le_primal_bc", "le_taylor_hood_bc"} -> Md(-(Area(V) * Dot(g, Col(v.u, P))))
      [] e.form = "lce_primal_bc" -> Md(-(Area(V) * Md(Dot(Col(v.u, P), g) + Dot(Col(v.t, P), Later(Len(v.u))))))
      [] e.form = "le_neumann" -> Md(Area(V) * Dot(Col(v.u, P), g))
      [] e.form = "le_normal_bc" ->
           LET gn == LET f(i) == Md(g[i] * N[i]) IN SumTo(f, Len(v.u))
               vn == LET u == Col(v.u, P) f(i) == Md(u[i] * N[i]) IN SumTo(f, Len(u))
           IN Md(-(Inv(Area(V)) * Md(gn * vn)))
      [] e.form = "le_dual_neumann" -> Md(-Dot(Flow(v.s, N, P), g))
      [] e.form \in {"lce_dual_neumann", "lce_scaled_dual_neumann"} -> Md(-(Dot(Flow(v.s, N, P), g) + Dot(Flow(v.m, N, P), Later(Len(v.s)))))

\* values on one cell / facet
BOn(e, j) == IF e.form \in Forms THEN IntF(e.cells[j], e.s, LAMBDA P : B(e, P))
             ELSE LET V == e.cells[j] N == NormalOf(V, e.opp[j]) IN Mean(V, e.s, LAMBDA P : BB(e, V, N, P))
LOn(e, j) == IF e.form \in Forms THEN IntF(e.cells[j], e.s, LAMBDA P : L(e, P))
             ELSE LET V == e.cells[j] N == NormalOf(V, e.opp[j]) IN Mean(V, e.s, LAMBDA P : LB(e, V, N, P))
=============================================================================
