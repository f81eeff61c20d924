----------------------------- MODULE FieldTrace -----------------------------
EXTENDS Field, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)

\* an observation is <<nearest integer mod M, distance to it in millionths>> of scale * value
Tol == 20000
Is(obs, scale, v) == obs[1] = Md(Md(scale) * v) /\ obs[2] <= Tol
Geo(e) == \A j \in DOMAIN e.cells : Rational(e.cells[j]) /\ Weight(e.cells[j]) # 0

ProjectVerdict(e) ==
    {n \in {"harness-input-out-of-scope", "reproduces-the-function", "observed-everything"} :
       \/ n = "harness-input-out-of-scope" /\ (~Geo(e) \/ ~InSpace(e.family, e.k, e.dim, e.rows))
       \/ n = "observed-everything" /\ (e.samples = <<>> \/ \E i \in DOMAIN e.samples : Len(e.samples[i].obs) # Len(e.rows))
       \/ n = "reproduces-the-function" /\ \E i \in DOMAIN e.samples :
            LET s == e.samples[i]
                P == At(e.cells[s.cell], s.lam, s.q) IN
            \E c \in DOMAIN e.rows : \/ Len(s.obs[c]) # Len(e.rows[c])
                                     \/ \E j \in DOMAIN e.rows[c] : ~Is(s.obs[c][j], s.scale, Eval(e.rows[c][j], P))}
MomentVerdict(e) ==
    {n \in {"harness-input-out-of-scope", "keeps-the-moments"} :
       \/ n = "harness-input-out-of-scope" /\ (~Geo(e) \/ \E t \in DOMAIN e.tests : ~InSpace(e.family, e.k, e.dim, e.tests[t]))
       \/ n = "keeps-the-moments" /\ \E t \in DOMAIN e.tests :
            \/ e.disc /\ \E j \in DOMAIN e.cells : ~Is(e.obs[t][j], e.scale, Pairing(<<e.cells[j]>>, e.s, e.rows, e.tests[t]))
            \/ ~e.disc /\ ~Is(e.obs[t][1], e.scale, Pairing(e.cells, e.s, e.rows, e.tests[t]))}

\* in one dimension every field is its own flux for the error of the divergence
Flux(e, f) == f.family \in {"RT", "BDM"} \/ (e.dim = 1 /\ e.kind = "div_error")
Kept(e) == SelectSeq(e.fields, LAMBDA f : ~f.skip /\ (e.kind \notin {"div_error", "div_norm", "div_scaled", "devia_error", "devia_norm"} \/ Flux(e, f)))
\* square of the norm of a tensor field less its mean volumetric part: |T|^2 - (int tr T)^2 / (dim |Omega|)
DeviaSq(e, rows) ==
    LET tr == CASE e.dim = 2 -> Plus(rows[1][1], rows[2][2])
                [] e.dim = 3 -> Plus(rows[1][1], Plus(rows[2][2], rows[3][3]))
        ones(j) == Md(Weight(e.cells[j]))
        vol == Md(SumTo(ones, Len(e.cells)) * Inv(Fact(e.dim)))
        all(j) == Integral(e.cells[j], e.s, tr)
        t == SumTo(all, Len(e.cells))
    IN Md(NormSq(e.cells, e.s, rows) - Md(Md(t * t) * Inv(Md(e.dim * vol))))
Grads(e, rows) == [c \in DOMAIN rows |-> [i \in 1..e.dim |-> Diff(rows[c][1], i)]]
Value(e, f) ==
    CASE e.kind = "devia_error" -> DeviaSq(e, MinusRows(f.exact, f.have))
      [] e.kind = "devia_norm" -> DeviaSq(e, f.exact)
      [] e.kind = "grad" -> IF f.family = "Lagrange" THEN NormSq(e.cells, e.s, Grads(e, MinusRows(f.exact, f.have))) ELSE 0
      [] e.kind = "error" -> NormSq(e.cells, e.s, MinusRows(f.exact, f.have))
      [] e.kind = "projected" -> NormSq(e.cells, e.s, f.have)
      [] e.kind = "norm" -> NormSq(e.cells, e.s, f.exact)
      [] e.kind = "div_norm" -> NormSq(e.cells, e.s, [c \in DOMAIN f.exact |-> <<DivRow(f.exact[c], e.dim)>>])
      [] e.kind = "div_error" -> LET d == MinusRows(f.exact, f.have)
                                 IN NormSq(e.cells, e.s, [c \in DOMAIN d |-> <<DivRow(d[c], e.dim)>>])
      \* the divergence of the field times a given weight function
      [] e.kind = "div_scaled" -> LET d == MinusRows(f.exact, [c \in DOMAIN f.have |-> [i \in DOMAIN f.have[c] |-> Times(e.gamma, f.have[c][i])]])
                                  IN NormSq(e.cells, e.s, [c \in DOMAIN d |-> <<DivRow(d[c], e.dim)>>])
ErrorVerdict(e) ==
    LET K == Kept(e) IN
    {n \in {"harness-input-out-of-scope", "one-value-per-field", "value"} :
       \/ n = "harness-input-out-of-scope" /\ e.dim = 1 /\ e.kind = "div_error" /\ \E i \in DOMAIN K : K[i].family = "Lagrange"
       \/ n = "harness-input-out-of-scope" /\ (~Geo(e) \/ \E i \in DOMAIN e.fields :
             ~InSpace(e.fields[i].family, e.fields[i].k, e.dim, e.fields[i].have))
       \/ n = "one-value-per-field" /\ Len(e.obs) # Len(K)
       \/ n = "value" /\ Len(e.obs) = Len(K) /\ \E i \in DOMAIN K : ~Is(e.obs[i], e.scale, Value(e, K[i]))}
Verdict(e) ==
    IF e.err # "" THEN {"computes"}
    ELSE CASE e.ev = "project" -> ProjectVerdict(e) [] e.ev = "moment" -> MomentVerdict(e) [] e.ev = "error" -> ErrorVerdict(e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l>>
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
=============================================================================
