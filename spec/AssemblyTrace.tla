---------------------------- MODULE AssemblyTrace ----------------------------
(* Recorded assemblies.  "begin" gives the work list (form type, items in    *)
(* order, the destinations the space reports, the states handed in) and the  *)
(* content the global vector and matrix already had; every "eval" is one     *)
(* call the assembler made to a weak form, with what it was handed and what  *)
(* it answered; "end" is the global vector and matrix after assembly.        *)
EXTENDS Assembly, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, begin, pos
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
At(v, dest) == [k \in DOMAIN dest |-> v[dest[k] + 1]]

\* what the weak form of a work item must be handed
Expected(w) ==
    CASE w.type \in {"form", "bc_form"} -> [args |-> <<w.idx>>, states |-> << At(w.alpha, w.dest) >>, time |-> 0]
      [] w.type = "time_dependent_form" -> [args |-> <<w.idx>>, states |-> << At(w.alpha, w.dest), At(w.alpha2, w.dest) >>, time |-> w.t]
      [] w.type = "time_dependent_bc_form" -> [args |-> <<w.idx>>, states |-> << At(w.alpha, w.dest) >>, time |-> w.t]
      [] w.type = "interface_form" -> [args |-> <<w.idx, w.idxp, w.idxn>>, states |-> << At(w.alpha, w.destp), At(w.alpha, w.destn) >>, time |-> 0]
      [] w.type = "bc_interface_form" -> [args |-> <<w.idx, w.idxp>>, states |-> << At(w.alpha, w.dest) >>, time |-> 0]

EvalVerdict(e) ==
    IF pos > Len(begin.work) THEN {"extra-evaluation"}
    ELSE LET w == begin.work[pos] x == Expected(w) IN
         {n \in {"each-item-once-in-order", "local-state", "time-value"} :
            \/ n = "each-item-once-in-order" /\ (e.form # w.form \/ e.args # x.args)
            \/ n = "local-state" /\ e.states # x.states
            \/ n = "time-value" /\ e.time # x.time}

EndVerdict(e) ==
    IF e.err # "" THEN {"assembly-completes"}
    ELSE {n \in {"all-items-evaluated", "residual-is-the-sum", "matrix-is-the-sum", "states-untouched"} :
       \/ n = "all-items-evaluated" /\ pos # Len(begin.work) + 1
       \/ n = "residual-is-the-sum" /\ \E i \in 0..(begin.ndof - 1) : e.res[i + 1] # Get(res, i)
       \/ n = "matrix-is-the-sum" /\ LET got == {t \in {<<q[1], q[2], q[3]>> : q \in {e.mat[k] : k \in DOMAIN e.mat}} : t[3] # 0}
                                         want == {<<p[1], p[2], mat[p]>> : p \in {x \in DOMAIN mat : mat[x] # 0}} IN got # want
       \/ n = "states-untouched" /\ e.alphas # begin.alphas}

Dest(w) == IF w.type = "interface_form" THEN w.destp \o w.destn ELSE w.dest
TraceInit == l = 1 /\ begin = <<>> /\ pos = 1 /\ todo = {} /\ res = <<>> /\ mat = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ UNCHANGED todo
    /\ LET e == Trace[l] IN
         \/ /\ e.ev = "begin" /\ begin' = e /\ pos' = 1
            /\ res' = [i \in 0..(e.ndof - 1) |-> e.res[i + 1]]
            /\ mat' = LET P == {<<e.mat[k][1], e.mat[k][2]>> : k \in DOMAIN e.mat} IN
                      [p \in P |-> LET k == CHOOSE k \in DOMAIN e.mat : e.mat[k][1] = p[1] /\ e.mat[k][2] = p[2] IN e.mat[k][3]]
         \/ /\ e.ev = "eval" /\ Report(EvalVerdict(e))
            /\ pos' = pos + 1 /\ UNCHANGED begin
            /\ IF pos > Len(begin.work) THEN UNCHANGED <<res, mat>>
               ELSE res' = AddVec(res, Dest(begin.work[pos]), e.r) /\ mat' = AddMat(mat, Dest(begin.work[pos]), e.j)
         \/ e.ev = "end" /\ Report(EndVerdict(e)) /\ UNCHANGED <<begin, pos, res, mat>>
TraceSpec == TraceInit /\ [][TraceNext]_<<avars, l, begin, pos>>
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
==============================================================================
