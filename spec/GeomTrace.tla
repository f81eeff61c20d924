----------------------------- MODULE GeomTrace ------------------------------
EXTENDS Geom, Field, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
Tol == 20000          \* millionths
Close(o) == o[2] <= Tol
Same(obs, want) == /\ Len(obs) = Len(want) /\ \A i \in DOMAIN want : obs[i][1] = want[i] /\ Close(obs[i])
Flat(q) == \* all observations of a matrix are close to integers
    \A i \in DOMAIN q : \A j \in DOMAIN q[i] : Close(q[i][j])
Ints(q) == [i \in DOMAIN q |-> [j \in DOMAIN q[i] |-> q[i][j][1]]]

CellVerdict(e) ==
    LET n == Len(e.V) - 1 m == Len(e.lam) IN
    {k \in {"maps-points", "jacobian", "determinant", "inverse"} :
       \/ k = "maps-points" /\ (Len(e.x) # m \/ \E p \in 1..m : ~Same(e.x[p], Blend(e.V, e.lam[p])))
       \/ k = "jacobian" /\ n > 0 /\ Len(e.jac) # m
       \/ k = "inverse" /\ n > 0 /\ Len(e.inv) # m
       \/ k = "determinant" /\ Len(e.det) # m
       \/ k = "jacobian" /\ \E p \in DOMAIN e.jac : \E i \in 1..3 : ~Same(e.jac[p][i], Jacobian(e.V)[i])
       \/ k = "determinant" /\ (~e.positive \/ \E p \in DOMAIN e.det : e.det[p][1] # DetSq(e.V) \/ ~Close(e.det[p]))
       \/ k = "inverse" /\ \E p \in DOMAIN e.inv : ~Flat(e.inv[p]) \/ ~IsScaledInverse(e.V, Ints(e.inv[p]))}
\* a facet seen from a cell: reference coordinates in the cell (times q) and the unit normal (times its own length r^(1/2))
FacetVerdict(e) ==
    LET O == Rest(e.V, e.F) N == Outward(e.F, O)
        At3(mu) == Blend(e.V, <<e.q - (LET f(j) == mu[j][1] IN IF Len(mu) = 1 THEN f(1) ELSE IF Len(mu) = 2 THEN f(1) + f(2) ELSE f(1) + f(2) + f(3))>>
                              \o [j \in DOMAIN mu |-> mu[j][1]])
    IN {k \in {"harness-input-out-of-scope", "facet-points", "unit-normal"} :
       \/ k = "harness-input-out-of-scope" /\ (e.r # Dot3(N, N) \/ \E j \in DOMAIN e.F : e.F[j] \notin {e.V[i] : i \in DOMAIN e.V})
       \/ k = "facet-points" /\ \/ Len(e.mapped) # Len(e.lam)
                                \/ \E p \in DOMAIN e.lam : ~Flat(<<e.mapped[p]>>) \/ At3(e.mapped[p]) # Blend(e.F, e.lam[p])
       \/ k = "unit-normal" /\ ~Same(e.normal, N)}
\* traces on a facet: every basis function of the neighbour (all), or those of the facet (flux families: the normal flux)
TraceVerdict(e) ==
    LET O == Rest(e.V, e.F) N == IF Len(e.V) = 2 THEN <<1, 0, 0>> ELSE Outward(e.F, O)
        P(p) == At(e.F, e.lam[p], e.q)
        Want(p, c) == IF e.all THEN [i \in DOMAIN e.rows[c] |-> Eval(e.rows[c][i], P(p))]
                      ELSE LET f(i) == Md(Md(N[i]) * Eval(e.rows[c][i], P(p))) IN << SumTo(f, Len(e.rows[c])) >>
    IN {k \in {"harness-input-out-of-scope", "trace-value"} :
       \/ k = "harness-input-out-of-scope" /\ (~InSpace(e.family, e.k, Len(e.V) - 1, e.rows) \/ (~e.all /\ Len(e.V) > 2 /\ e.N # N))
       \/ k = "trace-value" /\ \/ Len(e.obs) # Len(e.lam)
                               \/ \E p \in DOMAIN e.obs : \/ Len(e.obs[p]) # Len(e.rows)
                                                         \/ \E c \in DOMAIN e.rows : ~Same(e.obs[p][c], [i \in DOMAIN Want(p, c) |-> Md(Md(e.scale) * Want(p, c)[i])])}
MetricVerdict(e) ==
    LET n == Len(e.cells)
        d == [j \in 1..n |-> DiamSq(e.cells[j])]
        tot == LET f[j \in 0..n] == IF j = 0 THEN 0 ELSE f[j - 1] + Tenths(d[j]) IN f[n]
    IN {k \in {"centroid", "diameter", "mesh-size"} :
       \/ k = "centroid" /\ (Len(e.centroid) # n \/ \E j \in 1..n : ~Same(e.centroid[j], Blend(e.cells[j], [i \in DOMAIN e.cells[j] |-> 1])))
       \/ k = "diameter" /\ (Len(e.diam) # n \/ \E j \in 1..n : e.diam[j][1] # d[j] \/ ~Close(e.diam[j]))
       \/ k = "mesh-size" /\ \/ \E j \in 1..n : d[j] < e.size[1][1] \/ d[j] > e.size[3][1]
                             \/ ~\E j \in 1..n : d[j] = e.size[1][1] /\ Close(e.size[1])
                             \/ ~\E j \in 1..n : d[j] = e.size[3][1] /\ Close(e.size[3])
                             \* mean in tenths, times the number of cells
                             \/ e.size[2][1] < tot - 1 \/ e.size[2][1] > tot + n + 1}
\* rotation about a coordinate axis by the angle with cosine p/h and sine q/h, times h
Turned(e) == LET v == e.v p == e.p q == e.q h == e.h IN
    CASE e.axis = 0 -> <<h * v[1], p * v[2] - q * v[3], q * v[2] + p * v[3]>>
      [] e.axis = 1 -> <<p * v[1] + q * v[3], h * v[2], p * v[3] - q * v[1]>>
      [] OTHER -> <<p * v[1] - q * v[2], q * v[1] + p * v[2], h * v[3]>>
TurnVerdict(e) == {k \in {"rotation", "harness-input-out-of-scope"} :
    \/ k = "rotation" /\ e.obs # Turned(e)
    \/ k = "harness-input-out-of-scope" /\ e.p * e.p + e.q * e.q # e.h * e.h}
Verdict(e) == IF e.err # "" THEN {"computes"}
              ELSE CASE e.ev = "cell" -> CellVerdict(e) [] e.ev = "facet" -> FacetVerdict(e)
                     [] e.ev = "trace" -> TraceVerdict(e) [] e.ev = "turn" -> TurnVerdict(e) [] OTHER -> MetricVerdict(e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l>>
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
=============================================================================
