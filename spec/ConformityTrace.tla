-------------------------- MODULE ConformityTrace --------------------------
(* Verdicts on traces of the basis functions of neighbouring cells.        *)
(* An event is one facet with the node sequences of its two cells; funcs   *)
(* lists per side <<index, component, v1 .. vn>>, the (integer scaled)     *)
(* trace of every function of that cell at common points of the facet:     *)
(* the value (Lagrange), the flux (RT, BDM) or the circulation (N1E, N2E). *)
EXTENDS Orientation, Json, IOUtils
CONSTANTS Fam, Deg, NComp, NodeSet
VARIABLES K, pending, block, next
L == INSTANCE DofLayout

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
Abs(x) == IF x < 0 THEN -x ELSE x
Tol == 20

\* number of functions of one component with a trace on a facet of dimension f
Traces(e) ==
    LET d == e.dim
        c(x) == L!ConformingDofs(e.family, d, e.k, x) IN
    IF e.disc THEN L!LocalDim(IF d = 1 THEN "Lagrange" ELSE e.family, d, e.k)
    ELSE CASE d = 1 -> 1
      [] d = 2 -> (IF e.family = "Lagrange" THEN 2 * c(0) + c(1) ELSE c(1))
      [] d = 3 -> (CASE e.family = "Lagrange" -> 3 * c(0) + 3 * c(1) + c(2)
                     [] e.family \in {"RT", "BDM"} -> c(2)
                     [] OTHER -> 3 * c(1) + c(2))
Zero(r) == \A i \in 3..Len(r) : Abs(r[i]) <= Tol
Same(r, s) == Len(r) = Len(s) /\ r[2] = s[2] /\ \A i \in 3..Len(r) : Abs(r[i] - s[i]) <= Tol
Active(rows) == {i \in DOMAIN rows : ~Zero(rows[i])}
FacetVerdict(e) ==
    LET A == e.left
        B == e.right
        ia == [g \in {A[i][1] : i \in DOMAIN A} |-> CHOOSE i \in DOMAIN A : A[i][1] = g]
        ib == [g \in {B[i][1] : i \in DOMAIN B} |-> CHOOSE i \in DOMAIN B : B[i][1] = g]
        both == DOMAIN ia \cap DOMAIN ib IN
    {n \in {"one-index-per-function", "same-trace", "private-functions-vanish", "functions-of-the-facet", "no-sharing", "components"} :
       \/ n = "one-index-per-function" /\ (Cardinality(DOMAIN ia) # Len(A) \/ Cardinality(DOMAIN ib) # Len(B))
       \/ n = "same-trace" /\ \E g \in both : ~Same(A[ia[g]], B[ib[g]])
       \/ n = "private-functions-vanish" /\ ~e.disc /\
            (\/ \E g \in DOMAIN ia \ both : ~Zero(A[ia[g]])
             \/ \E g \in DOMAIN ib \ both : ~Zero(B[ib[g]]))
       \/ n = "functions-of-the-facet" /\ ~e.disc /\ Cardinality(Active(A)) # e.ncomp * Traces(e)
       \/ n = "no-sharing" /\ e.disc /\ both # {}
       \/ n = "components" /\ \E c \in 0..(e.ncomp - 1) :
            Cardinality({i \in DOMAIN A : A[i][2] = c}) * e.ncomp # Len(A)}

\* the order in which a tetrahedron's face and edge functions come out: v[j] = tag of the vertex next to function j
OrientVerdict(e) ==
    {n \in {"face-order", "edge-order"} :
       \/ n = "face-order" /\ \E i \in DOMAIN e.faces : \E j \in 1..3 : e.faces[i].next[j] # FaceVertex(e.faces[i].nodes, j)
       \/ n = "edge-order" /\ \E i \in DOMAIN e.edges : \E j \in 1..2 : e.edges[i].next[j] # EdgeVertex(e.edges[i].nodes, j)}
\* rows alternate: difference quotients of the delivered values, delivered derivatives
DerivVerdict(e) ==
    IF \A d \in 1..(Len(e.rows) \div 2) :
         LET a == e.rows[2 * d - 1]
             b == e.rows[2 * d] IN
         Len(a) = Len(b) /\ \A j \in DOMAIN a : \A c \in DOMAIN a[j] : Abs(a[j][c] - b[j][c]) <= 100
    THEN {} ELSE {"derivatives-of-the-functions"}
Verdict(e) ==
    IF e.err # "" THEN {"builds"}
    ELSE CASE e.ev = "facet" -> FacetVerdict(e) [] e.ev = "orient" -> OrientVerdict(e) [] e.ev = "deriv" -> DerivVerdict(e)
Unused == UNCHANGED <<K, pending, block, next, left, right>>
TraceInit == l = 1 /\ K = {} /\ pending = {} /\ block = <<>> /\ next = 0 /\ left = <<>> /\ right = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Verdict(Trace[l])) /\ Unused
TraceSpec == TraceInit /\ [][TraceNext]_<<l, K, pending, block, next, left, right>>
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
