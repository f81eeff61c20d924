---------------------------- MODULE WeakFormsMC -----------------------------
(* The weak forms as statements about their boundary value problems: fields *)
(* and data are manufactured so that the differential equations hold, and   *)
(* then domain form plus boundary terms must vanish for every test field.   *)
(* State: a simplex, a problem, the fields; a step poses a problem, moves   *)
(* the test field or passes to one half of the simplex.                     *)
EXTENDS WeakForms
CONSTANTS N, Corners, Picks, Moves, Splits
VARIABLES V, form, a, b, split

Pool == << << <<1, 0, 0, 0>> >>, << <<2, 1, 0, 0>>, <<1, 0, 1, 0>> >>, << <<-1, 2, 0, 0>>, <<3, 0, 0, 1>> >>,
           << <<1, 1, 1, 0>>, <<-2, 0, 0, 0>> >>, << <<1, 0, 2, 0>>, <<1, 0, 0, 2>>, <<1, 1, 0, 0>> >>,
           << <<2, 0, 1, 0>>, <<-1, 1, 0, 1>> >>, << <<5, 0, 0, 0>>, <<-3, 1, 0, 0>>, <<1, 0, 0, 1>> >> >>
\* polynomials in the coordinates of the simplex only
Keep(p) == SelectSeq(p, LAMBDA t : \A i \in 1..3 : i > N => t[i + 1] = 0)
Pick(n) == Keep(Pool[(n % Len(Pool)) + 1])
Nrot == IF N = 2 THEN 1 ELSE 3
Vec(n, k) == TLCEval([c \in 1..k |-> << Pick(n + 3 * c) >>])                         \* k scalar components
Flx(n, k) == TLCEval([c \in 1..k |-> [i \in 1..N |-> Pick(n + 2 * c + 3 * i)]])      \* k flux components
One(p) == << << p >> >>
Const(n) == << <<n, 0, 0, 0>> >>
\* ---- the calculus on polynomials
GradP(p) == [i \in 1..N |-> Diff(p, i)]
GradV(u) == [c \in DOMAIN u |-> GradP(u[c][1])]
RotP(t) == IF N = 2 THEN << << <<>>, Scale(-1, t[1][1]) >>, << t[1][1], <<>> >> >>
           ELSE << << <<>>, Scale(-1, t[3][1]), t[2][1] >>, << t[3][1], <<>>, Scale(-1, t[1][1]) >>, << Scale(-1, t[2][1]), t[1][1], <<>> >> >>
AsymP(s) == IF N = 2 THEN << Plus(s[2][1], Scale(-1, s[1][2])) >>
            ELSE << Plus(s[3][2], Scale(-1, s[2][3])), Plus(s[1][3], Scale(-1, s[3][1])), Plus(s[2][1], Scale(-1, s[1][2])) >>
AddP(A, B2) == [c \in DOMAIN A |-> [i \in DOMAIN A[c] |-> Plus(A[c][i], B2[c][i])]]
ScaleP(k, A) == [c \in DOMAIN A |-> [i \in DOMAIN A[c] |-> Scale(k, A[c][i])]]
MulP(p, A) == [c \in DOMAIN A |-> [i \in DOMAIN A[c] |-> Times(p, A[c][i])]]
TraceP(A) == IF N = 1 THEN A[1][1] ELSE IF N = 2 THEN Plus(A[1][1], A[2][2]) ELSE Plus(A[1][1], Plus(A[2][2], A[3][3]))
TransP(A) == [c \in DOMAIN A |-> [i \in DOMAIN A[c] |-> A[i][c]]]
\* 2 mu sym E + lambda tr E I + 2 kappa skew E
Law(lam, mu, kap, E) ==
    [c \in DOMAIN E |-> [i \in DOMAIN E[c] |->
        Plus(Times(Plus(mu, kap), E[c][i]), Plus(Times(Plus(mu, Scale(-1, kap)), E[i][c]), IF c = i THEN Times(lam, TraceP(E)) ELSE <<>>))]]
DivV(s) == TLCEval([c \in DOMAIN s |-> << DivRow(s[c], N) >>])
\* ---- the problems: state, data, and the form of the boundary term
lam0 == 3
mu0 == 2
kap0 == 5
Stiff(E) == Law(Const(lam0), Const(mu0), Const(kap0), E)
Frac(n, m) == Md(Md(n) * PowM(Md(m), M - 2))
Skewed(u) == \* t with Rot(t) = -skew grad u
    LET G == GradV(u) A == AsymP(G) IN TLCEval([c \in DOMAIN A |-> << Scale(Md(-Half), A[c]) >>])
Elastic == [q |-> Const(Frac(1, 2 * mu0)), rho |-> Const(Frac(64 * lam0, 2 * mu0 + N * lam0)), k |-> Const(Frac(1, 2 * kap0))]
Problem ==
    LET p == Pick(a) u == Vec(a, N) t == Vec(a + 1, Nrot)
        kp == Pick(a + 4) gp == Pick(a + 2) dp == Pick(a + 5)
        none == [w |-> <<>>, v |-> <<>>, coef |-> <<>>, rhs |-> <<>>, bc |-> "", data |-> <<>>, flux |-> <<>>]
    IN
    CASE form = "laplace_primal" ->
           LET s == MulP(kp, <<GradP(p)>>) IN
           [w |-> [p |-> One(p)], v |-> [p |-> One(Pick(b))], coef |-> [kappa |-> kp], rhs |-> One(Scale(-1, DivRow(s[1], N))),
            bc |-> "", data |-> <<>>, flux |-> [p |-> s]]
      [] form = "laplace_dual" ->
           LET s == ScaleP(Frac(-1, 3), <<GradP(p)>>) IN
           [w |-> [u |-> s, p |-> One(p)], v |-> [u |-> Flx(b, 1), p |-> One(Pick(b))], coef |-> [k |-> Const(3)],
            rhs |-> One(DivRow(s[1], N)), bc |-> "laplace_dual_bc", data |-> One(p), flux |-> <<>>]
      [] form = "unscaled" ->
           LET s == ScaleP(Frac(-1, 9), <<GradP(p)>>) IN
           [w |-> [u |-> s, p |-> One(p)], v |-> [u |-> Flx(b, 1), p |-> One(Pick(b))], coef |-> [h |-> Const(3), g |-> Const(2)],
            rhs |-> One(Scale(Frac(1, 2), Plus(DivRow(s[1], N), Scale(4, p)))), bc |-> "unscaled_bc", data |-> One(p), flux |-> <<>>]
      [] form = "degenerate" ->
           \* u = -delta grad (g q),  q + g div(delta u) = f
           LET s == MulP(Scale(-1, dp), <<GradP(Times(gp, p))>>)
               d == Times(gp, DivRow(MulP(dp, s)[1], N)) IN
           [w |-> [v |-> s, q |-> One(p)], v |-> [v |-> Flx(b, 1), q |-> One(Pick(b))], coef |-> [g |-> gp, delta |-> dp],
            rhs |-> One(Plus(p, d)), bc |-> "degenerate_bc", data |-> One(p), flux |-> <<>>]
      [] form = "le_primal" ->
           LET s == Law(kp, gp, <<>>, GradV(u)) IN
           \* without the couple term: 2 mu sym + lambda tr
           [w |-> [u |-> u], v |-> [u |-> Vec(b, N)], coef |-> [lambda |-> kp, mu |-> gp], rhs |-> DivV(s), bc |-> "", data |-> <<>>, flux |-> [u |-> s]]
      [] form = "le_stress_constraint" ->
           LET s == Law(kp, gp, <<>>, GradV(u)) IN
           [w |-> [u |-> u], v |-> [u |-> Vec(b, N)], coef |-> [lambda |-> kp, mu |-> gp], rhs |-> s, bc |-> "", data |-> <<>>, flux |-> <<>>]
      [] form = "le_taylor_hood" ->
           \* plane strain: p = (lambda + mu) div u
           LET G == GradV(u) pr == Scale(7, TraceP(G)) s == Law(Plus(Const(7), Scale(-1, gp)), gp, <<>>, G) IN
           [w |-> [u |-> u, p |-> One(pr)], v |-> [u |-> Vec(b, N), p |-> One(Pick(b + 1))], coef |-> [h |-> Const(Frac(1, 7)), mu |-> gp],
            rhs |-> DivV(s), bc |-> "", data |-> <<>>, flux |-> [u |-> s]]
      [] form = "le_dual" ->
           LET s == Law(Const(lam0), Const(mu0), <<>>, GradV(u)) IN
           [w |-> [s |-> s, u |-> u, t |-> Skewed(u)], v |-> [s |-> Flx(b, N), u |-> Vec(b, N), t |-> Vec(b + 1, Nrot)], coef |-> Elastic,
            rhs |-> DivV(s) \o [c \in 1..Nrot |-> << <<>> >>], bc |-> "le_dual_bc", data |-> u, flux |-> <<>>]
      [] form = "lce_primal" ->
           LET s == Law(kp, gp, dp, AddP(GradV(u), RotP(t))) m == MulP(Pick(a + 6), GradV(t)) A == AsymP(s) dm == DivV(m) IN
           [w |-> [u |-> u, t |-> t], v |-> [u |-> Vec(b, N), t |-> Vec(b + 2, Nrot)],
            coef |-> [lambda |-> kp, mu |-> gp, kappa |-> dp, gamma |-> Pick(a + 6)],
            rhs |-> DivV(s) \o [c \in 1..Nrot |-> << Plus(dm[c][1], Scale(-1, A[c])) >>], bc |-> "", data |-> <<>>, flux |-> [u |-> s, t |-> m]]
      [] form \in {"lce_dual", "lce_scaled_dual"} ->
           LET s == Stiff(AddP(GradV(u), RotP(t))) A == AsymP(s)
               sc == form = "lce_scaled_dual"
               lp == Pick(a + 4)
               Gt == GradV(t)
               \* lce: l o = grad t;  scaled: compliance o = l grad t (2D: o scalar row)
               o == IF sc THEN MulP(lp, IF N = 2 THEN ScaleP(4, Gt) ELSE Law(Const(lam0), Const(mu0), Const(kap0), Gt))
                    ELSE ScaleP(6, IF N = 2 THEN ScaleP(4, Gt) ELSE Law(Const(lam0), Const(mu0), Const(kap0), Gt))
               dm == DivV(IF sc THEN MulP(lp, o) ELSE o) IN
           [w |-> [s |-> s, m |-> o, u |-> u, t |-> t], v |-> [s |-> Flx(b, N), m |-> Flx(b + 1, Nrot), u |-> Vec(b, N), t |-> Vec(b + 2, Nrot)],
            coef |-> [q |-> Elastic.q, rho |-> Elastic.rho, k |-> Elastic.k, qo |-> Elastic.q, rhoo |-> Elastic.rho, ko |-> Elastic.k,
                      so |-> Const(Frac(1, 4)), li |-> Const(Frac(1, 6)), l |-> lp],
            rhs |-> DivV(s) \o [c \in 1..Nrot |-> << Plus(dm[c][1], Scale(-1, A[c])) >>],
            bc |-> form \o "_bc", data |-> u \o t, flux |-> <<>>]
      [] OTHER -> none
\* a weak Dirichlet or traction condition is met by a field with the prescribed values
Pins == {"laplace_primal_bc", "le_primal_bc", "le_taylor_hood_bc", "lce_primal_bc", "le_normal_bc", "le_dual_neumann", "lce_dual_neumann"}
RieszForms == {"le_riesz", "lce_riesz", "lce_scaled_riesz"}
Problems == (Forms \ (RieszForms \cup {"scaled_to_physical"})) \cap
            (IF N = 1 THEN {"laplace_primal", "laplace_dual", "unscaled", "degenerate"}
             ELSE IF N = 3 THEN Forms \ {"le_taylor_hood"} ELSE Forms)
S == 3
Ev(f, pr, cells, opp) == [form |-> f, dim |-> N, s |-> S, w |-> pr.w, v |-> pr.v, coef |-> pr.coef, rhs |-> pr.rhs, cells |-> cells, opp |-> opp, dry |-> FALSE]
Facet(q, j) == [k \in 1..N |-> q[IF k < j THEN k ELSE k + 1]]
Facets(q) == [j \in 1..(N + 1) |-> Facet(q, j)]
On(cells, opp, f, pr, F(_, _)) == LET e == Ev(f, pr, cells, opp) g(j) == F(e, j) IN SumTo(g, Len(cells))
Outflow(q, pr, j) ==
    LET fc == Facet(q, j) n == NormalOf(fc, q[j])
        F(P) == LET f(x) == Dot(Flow(pr.flux[x], n, P), Col(pr.v[x], P)) IN
                IF DOMAIN pr.flux = {"u", "t"} THEN Md(f("u") + f("t")) ELSE IF DOMAIN pr.flux = {"u"} THEN f("u") ELSE f("p")
    IN Mean(fc, S, F)
Balance(q, pr) ==
    LET inside == Md(On(<<q>>, <<>>, form, pr, BOn) + On(<<q>>, <<>>, form, pr, LOn))
        onbc == IF pr.bc = "" THEN 0
                ELSE On(Facets(q), [j \in 1..(N + 1) |-> q[j]], pr.bc, [pr EXCEPT !.rhs = pr.data], LOn)
        nat == IF pr.flux = <<>> THEN 0 ELSE LET g(j) == Outflow(q, pr, j) IN SumTo(g, N + 1)
    IN Md(Md(inside + onbc) - nat)

Simplices == {q \in [1..(N + 1) -> Corners] : Weight(q) # 0}
Start == {q \in Simplices : \A j, k \in 1..(N + 1) : j < k => \E i \in 1..3 : /\ q[j][i] < q[k][i]
                                                                              /\ \A h \in 1..(i - 1) : q[j][h] = q[k][h]}
Init == V \in Start /\ form = "" /\ a = 0 /\ b = 0 /\ split = ~Splits
Pose == form = "" /\ form' \in Problems /\ a' \in Picks /\ UNCHANGED <<V, b, split>>
Move == form # "" /\ b < Moves /\ b' = b + 1 /\ UNCHANGED <<V, form, a, split>>
Mid(x, y) == [i \in 1..3 |-> x[i] + y[i]]
Twice3(x) == [i \in 1..3 |-> 2 * x[i]]
\* refine: keep one half of the doubled simplex
Refine == /\ form # "" /\ ~split /\ split' = TRUE /\ UNCHANGED <<form, a, b>>
          /\ \E j, k \in 1..(N + 1) : j # k /\ V' = [[i \in 1..(N + 1) |-> Twice3(V[i])] EXCEPT ![j] = Mid(V[j], V[k])]
Next == Pose \/ Move \/ Refine
Spec == Init /\ [][Next]_<<V, form, a, b, split>>

Balanced == form # "" => Balance(V, Problem) = 0
Swap(pr) == [pr EXCEPT !.w = pr.v, !.v = pr.w]
SymmetricForms == {"laplace_primal", "le_primal", "le_stress_constraint", "le_taylor_hood", "le_dual", "lce_primal", "lce_dual", "lce_scaled_dual"}
Symmetric == form \in SymmetricForms => On(<<V>>, <<>>, form, Problem, BOn) = On(<<V>>, <<>>, form, Swap(Problem), BOn)
\* mixed scalar problems: skew in the coupling, so the diagonal is the energy
Energy == form \in {"laplace_dual", "unscaled", "degenerate"} =>
    LET pr == [Problem EXCEPT !.v = Problem.w] e == Ev(form, pr, <<V>>, <<>>)
        D(P) == CASE form = "laplace_dual" -> Md(C(e, "k", P) * Twice(Vals(e.w.u, P), Vals(e.w.u, P)))
                  [] form = "unscaled" -> Md(Md(Md(C(e, "h", P) * C(e, "h", P)) * Twice(Vals(e.w.u, P), Vals(e.w.u, P)))
                                             + Md(Md(C(e, "g", P) * C(e, "g", P)) * Dot(Col(e.w.p, P), Col(e.w.p, P))))
                  [] OTHER -> Md(Twice(Vals(e.w.v, P), Vals(e.w.v, P)) + Dot(Col(e.w.q, P), Col(e.w.q, P)))
    IN BOn(e, 1) = IntF(V, S, D)
\* a field that takes the prescribed values satisfies each weakly imposed condition, on every facet
Pinned == form # "" =>
    \A f \in Pins : (N > 1 \/ f = "laplace_primal_bc") =>
      \A j \in 1..(N + 1) :
        LET fc == Facet(V, j) n == NormalOf(fc, V[j])
            fl(rows) == [c \in DOMAIN rows |-> << LET z(i) == Scale(n[i], rows[c][i]) IN
                          Scale(Inv(Weight(fc)), IF N = 2 THEN Plus(z(1), z(2)) ELSE Plus(z(1), Plus(z(2), z(3)))) >>]
            w == IF N = 1 THEN [p |-> Vec(a, 1)]
                 ELSE [p |-> Vec(a, 1), u |-> Vec(a, N), t |-> Vec(a + 1, Nrot), s |-> Flx(a, N), m |-> Flx(a + 1, Nrot)]
            v == IF N = 1 THEN [p |-> Vec(b, 1)]
                 ELSE [p |-> Vec(b, 1), u |-> Vec(b, N), t |-> Vec(b + 1, Nrot), s |-> Flx(b, N), m |-> Flx(b + 1, Nrot)]
            data == CASE f = "laplace_primal_bc" -> w.p
                      [] f \in {"le_primal_bc", "le_taylor_hood_bc", "le_normal_bc"} -> w.u
                      [] f = "lce_primal_bc" -> w.u \o w.t
                      [] f = "le_dual_neumann" -> fl(w.s)
                      [] OTHER -> fl(w.s) \o fl(w.m)
            e == [form |-> f, dim |-> N, s |-> S, w |-> w, v |-> v, coef |-> <<>>, rhs |-> data, cells |-> <<fc>>, opp |-> <<V[j]>>, dry |-> FALSE]
        IN Rational(fc) => Md(BOn(e, 1) + LOn(e, 1)) = 0
Corners1 == {<<0, 0, 0>>, <<3, 0, 0>>, <<5, 0, 0>>}
Corners2 == {<<0, 0, 0>>, <<4, 0, 0>>, <<4, 3, 0>>, <<-1, 2, 0>>}
Corners3 == {<<0, 0, 0>>, <<2, 0, 1>>, <<1, 3, 0>>, <<0, 1, 2>>}
=============================================================================
