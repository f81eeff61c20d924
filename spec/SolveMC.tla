------------------------------ MODULE SolveMC -------------------------------
(* The statement of the problems (Solve) against the weak forms: the        *)
(* manufactured problems of WeakFormsMC, whose weak balance is an invariant *)
(* there, are exactly solved in the strong sense; a step disturbs one field *)
(* or the load by a polynomial.  The strong statement then has to fail,     *)
(* and so has the weak balance for some test field, unless nothing changed. *)
EXTENDS WeakFormsMC, Solve
VARIABLES hit, cnt
\* coefficients as Solve names them
LawOf(pr) ==
    CASE form = "laplace_primal" -> [kappa |-> pr.coef.kappa]
      [] form = "laplace_dual" -> [k |-> pr.coef.k]
      [] form = "unscaled" -> [h |-> pr.coef.h, g |-> pr.coef.g]
      [] form = "degenerate" -> [g |-> pr.coef.g, delta |-> pr.coef.delta]
      [] form = "le_primal" -> [lambda |-> pr.coef.lambda, mu |-> pr.coef.mu]
      [] form = "le_taylor_hood" -> [lambda |-> Plus(Const(7), Scale(-1, pr.coef.mu)), mu |-> pr.coef.mu]
      [] form = "le_dual" -> [lambda |-> Const(lam0), mu |-> Const(mu0)]
      [] form = "lce_primal" -> [lambda |-> pr.coef.lambda, mu |-> pr.coef.mu, kappa |-> pr.coef.kappa, gamma |-> pr.coef.gamma]
      [] OTHER -> [lambda |-> Const(lam0), mu |-> Const(mu0), kappa |-> Const(kap0),
                   lambdao |-> Const(lam0), muo |-> IF N = 2 THEN Const(4) ELSE Const(mu0), kappao |-> IF N = 2 THEN <<>> ELSE Const(kap0),
                   l |-> IF form = "lce_dual" THEN Const(6) ELSE pr.coef.l]
Posed(pr) == [form |-> form, dim |-> N, w |-> pr.w, law |-> LawOf(pr), rhs |-> pr.rhs]
\* the disturbed problem: hit names a field (or the load), cnt the component
Extra == << <<7, 0, 0, 0>>, <<5, 1, 0, 0>>, <<3, 1, 1, 0>>, <<2, 2, 0, 0>> >>
Extra1 == << <<7, 0, 0, 0>>, <<5, 2, 0, 0>> >>
Bump(rows, c) == [rows EXCEPT ![c] = [@ EXCEPT ![1] = Plus(@, IF N = 1 THEN Extra1 ELSE Extra)]]
Hits(pr) == DOMAIN pr.w \cup {"rhs"}
Disturbed(pr) == IF hit = "" THEN pr ELSE IF hit = "rhs" THEN [pr EXCEPT !.rhs = Bump(@, cnt)] ELSE [pr EXCEPT !.w = [@ EXCEPT ![hit] = Bump(@, cnt)]]
Disturb == /\ form # "" /\ hit = "" /\ b = 0
           /\ LET pr == Problem IN
              \E f \in Hits(pr) : \E c \in 1..Len(IF f = "rhs" THEN pr.rhs ELSE pr.w[f]) : hit' = f /\ cnt' = c
           /\ UNCHANGED <<V, form, a, b, split>>
SolveInit == Init /\ hit = "" /\ cnt = 0
SolveNext == (Pose /\ UNCHANGED <<hit, cnt>>) \/ Disturb
SolveSpec == SolveInit /\ [][SolveNext]_<<V, form, a, b, split, hit, cnt>>
Known == form \in Solvable
\* exactly the manufactured problem is solved
StrongIffUndisturbed == (form # "" /\ Known) => (Strong(Posed(Disturbed(Problem))) <=> hit = "")
\* the prescribed data are those of the weak boundary terms
DataAreValues == (form # "" /\ Known /\ hit = "" /\ Problem.data # <<>>) => SameRows(Problem.data, ValuesOf(Posed(Problem)))
\* the flows handed to the traction conditions are those of the balance
Slopes == {<<2, 1, 0>>, <<-1, 3, 2>>}
FlowsAgree == (form \in {"le_primal", "lce_dual", "le_dual", "lce_scaled_dual"} /\ hit = "" /\ N > 1) =>
    \A n \in Slopes :
      LET pr == Problem
          want == IF form = "le_primal" THEN ScaleRows(-1, FlowRows(pr.flux.u, n))
                  ELSE IF form = "le_dual" THEN FlowRows(StressOf(Posed(pr)), n)
                  ELSE FlowRows(StressOf(Posed(pr)) \o CoupleOf(Posed(pr)), n)
      IN SameRows(FlowsOf(Posed(pr), n), want)
\* seen by some test field: the weak balance of a disturbed problem fails somewhere
SeenWeakly == (form # "" /\ Known /\ hit # "") =>
    \E t \in 0..6 : LET pr == Disturbed(Problem)
                        vs == [f \in DOMAIN pr.v |-> IF pr.v[f] = <<>> THEN <<>> ELSE
                                 [c \in DOMAIN pr.v[f] |-> [i \in DOMAIN pr.v[f][c] |-> Pick(t + 2 * c + 3 * i)]]]
                    IN Balance(V, [pr EXCEPT !.v = vs]) # 0
=============================================================================
