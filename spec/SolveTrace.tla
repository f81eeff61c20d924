----------------------------- MODULE SolveTrace -----------------------------
(* A problem whose exact solution lies in the discrete spaces was assembled  *)
(* and solved with the library: the returned field must be that solution.    *)
EXTENDS Solve, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
Tol == 20000
Is(obs, scale, v) == obs[1] = Md(Md(scale) * v) /\ obs[2] <= Tol
Wrong(e, s) ==
    LET P == At(e.cells[s.cell], s.lam, s.q) rows == e.w[s.field] IN
    \/ Len(s.obs) # Len(rows)
    \/ \E c \in DOMAIN rows : \/ Len(s.obs[c]) # Len(rows[c])
                              \/ \E j \in DOMAIN rows[c] : ~Is(s.obs[c][j], s.scale, Eval(rows[c][j], P))
Verdict(e) ==
    {n \in {"harness-input-out-of-scope", "computes", "solves", "every-field"} :
       \/ n = "harness-input-out-of-scope" /\
            \/ \E f \in DOMAIN e.spaces : ~InSpace(e.spaces[f].family, e.spaces[f].k, e.dim, e.w[f])
            \/ ~Strong(e)
            \/ ~SameRows(e.values, ValuesOf(e))
            \/ \E i \in DOMAIN e.flows : ~SameRows(e.flows[i].rows, FlowsOf(e, NormalOf(e.flows[i].at, e.flows[i].opp)))
       \/ n = "computes" /\ e.err # ""
       \/ n = "every-field" /\ e.err = "" /\ {s.field : s \in {e.samples[i] : i \in DOMAIN e.samples}} # DOMAIN e.w
       \/ n = "solves" /\ e.err = "" /\ \E i \in DOMAIN e.samples : Wrong(e, e.samples[i])}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l>>
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
=============================================================================
