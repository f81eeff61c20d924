--------------------------- MODULE WeakFormsTrace ---------------------------
EXTENDS WeakForms, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
Tol == 20000
Is(obs, scale, v) == obs[1] = Md(Md(scale) * v) /\ obs[2] <= Tol
NeedsArea == {"laplace_primal_bc", "le_primal_bc", "le_taylor_hood_bc", "lce_primal_bc", "le_neumann", "le_normal_bc", "le_dual_neumann",
              "lce_dual_neumann", "lce_scaled_dual_neumann"}
Affine(o, j) == \E v \in {o.r[j][1], Md(o.b[j][1] + o.r[j][1])} : Is(o.a[j], 1, v)
Verdict(e) ==
    IF e.err # "" THEN {"computes"}
    ELSE LET n == Len(e.cells) IN
    {k \in {"harness-input-out-of-scope", "every-cell", "matrix", "vector", "residual", "vectorized-matrix", "vectorized-vector", "vectorized-residual"} :
       \/ k = "harness-input-out-of-scope" /\ \/ \E j \in 1..n : (e.form \in Forms \/ e.form \in NeedsArea) /\ (~Rational(e.cells[j]) \/ Weight(e.cells[j]) = 0)
                                              \/ \E f \in DOMAIN e.spaces : \/ ~InSpace(e.spaces[f].family, e.spaces[f].k, e.dim, e.w[f])
                                                                            \/ ~InSpace(e.spaces[f].family, e.spaces[f].k, e.dim, e.v[f])
       \/ k = "every-cell" /\ (Len(e.obs.b) # n \/ Len(e.obs.r) # n \/ (e.vec /\ (Len(e.vobs.b) # n \/ Len(e.vobs.r) # n)))
       \/ k = "matrix" /\ \E j \in 1..n : ~Is(e.obs.b[j], e.scale[j], BOn(e, j))
       \/ k = "vector" /\ \E j \in 1..n : ~Is(e.obs.r[j], e.scale[j], LOn(e, j))
       \* the returned vector is the residual at the given state (load plus matrix times state), or the load for the forms
       \* that leave the state to the solver
       \/ k = "residual" /\ \E j \in 1..n : ~Affine(e.obs, j)
       \/ k = "vectorized-residual" /\ e.vec /\ \E j \in 1..n : ~Affine(e.vobs, j)
       \* the vectorized evaluation is observed with the same fields: it must give the same integers
       \/ k = "vectorized-matrix" /\ e.vec /\ \E j \in 1..n : e.vobs.b[j][1] # e.obs.b[j][1] \/ e.vobs.b[j][2] > Tol
       \/ k = "vectorized-vector" /\ e.vec /\ \E j \in 1..n : e.vobs.r[j][1] # e.obs.r[j][1] \/ e.vobs.r[j][2] > Tol}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l>>
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
=============================================================================
