---------------------------- MODULE DofLayout -----------------------------
(* Numbering of degrees of freedom of a finite element space.              *)
(* Every mesh entity selected by the space owns a block of indices; the    *)
(* blocks partition 0..n-1.  A cell addresses the blocks of the entities   *)
(* in its closure, in reference order, so two cells share an index iff     *)
(* they share the entity that owns it.                                     *)
EXTENDS Simplicial

\* --- dofs per entity (the definition of the families; k is the degree) --
Choose2(a) == (a * (a - 1)) \div 2
Choose3(a) == (a * (a - 1) * (a - 2)) \div 6

\* continuous/conforming element on the simplex of dimension d, entity dimension e
ConformingDofs(family, d, k, e) ==
  IF d = 0 THEN 1
  ELSE LET fam == IF d = 1 THEN "Lagrange" ELSE family IN
  CASE fam = "Lagrange" ->
         (IF k = 0 THEN (IF e = d THEN 1 ELSE 0)
          ELSE (CASE e = 0 -> 1 [] e = 1 -> k - 1 [] e = 2 -> Choose2(k - 1) [] e = 3 -> Choose3(k - 1)))
    [] fam = "RT" ->
         (IF d = 2 THEN (CASE e = 0 -> 0 [] e = 1 -> k [] e = 2 -> k * (k - 1))
         ELSE (CASE e \in {0, 1} -> 0 [] e = 2 -> Choose2(k + 1) [] e = 3 -> 3 * Choose3(k + 1)))
    [] fam = "BDM" ->
         (IF d = 2 THEN (CASE e = 0 -> 0 [] e = 1 -> k + 1 [] e = 2 -> (k - 1) * (k + 1))
         ELSE (CASE e \in {0, 1} -> 0 [] e = 2 -> Choose2(k + 2) [] e = 3 -> ((k - 1) * (k + 1) * (k + 2)) \div 2))
    [] fam = "N1E" ->
         (IF d = 2 THEN (CASE e = 0 -> 0 [] e = 1 -> k [] e = 2 -> k * (k - 1))
         ELSE (CASE e = 0 -> 0 [] e = 1 -> k [] e = 2 -> k * (k - 1) [] e = 3 -> 3 * Choose3(k)))
    [] fam = "N2E" ->
         (IF d = 2 THEN (CASE e = 0 -> 0 [] e = 1 -> k + 1 [] e = 2 -> (k - 1) * (k + 1))
         ELSE (CASE e = 0 -> 0 [] e = 1 -> k + 1 [] e = 2 -> (k - 1) * (k + 1) [] e = 3 -> ((k - 2) * (k - 1) * (k + 1)) \div 2))

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n < 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

LocalDim(family, d, k) == LET f == [e \in 0..d |-> NumSub(d, e) * ConformingDofs(family, d, k, e)] IN SumTo(f, d)

EntityDofs(family, d, k, disc, e) ==
    IF ~disc THEN ConformingDofs(family, d, k, e)
    ELSE IF e = d THEN LocalDim(family, d, k) ELSE 0

\* --- design: allocation of blocks, entity by entity ---------------------
CONSTANTS NodeSet, Fam, Deg, NComp

VARIABLES K,      \* the complex
          pending,\* entities without a block
          block,  \* entity -> sequence of indices
          next    \* next free index

lvars == <<K, pending, block, next>>
TopDim == 2
Dim(s) == Cardinality(s) - 1
BlockSize(s) == NComp * EntityDofs(Fam, TopDim, Deg, FALSE, Dim(s))

Init == /\ \E T \in {X \in SUBSET {s \in SUBSET NodeSet : Cardinality(s) = TopDim + 1} : Cardinality(X) \in 1..2} : K = ClosureOf(T)
        /\ pending = K /\ block = <<>> /\ next = 0
\* entities may be numbered in any order within their dimension, lower dimensions first
Allocate(s) ==
    /\ s \in pending
    /\ \A r \in pending : Dim(r) >= Dim(s)
    /\ block' = (s :> [i \in 1..BlockSize(s) |-> next + i - 1]) @@ block
    /\ next' = next + BlockSize(s)
    /\ pending' = pending \ {s}
    /\ UNCHANGED K
Next == \E s \in pending : Allocate(s)
Spec == Init /\ [][Next]_lvars

Owned(s) == RangeOf(block[s])
CellDofs(c) == UNION {Owned(s) : s \in Faces(c)}
Cells == {s \in K : Dim(s) = TopDim}

Disjoint == \A a, b \in DOMAIN block : a # b => Owned(a) \cap Owned(b) = {}
NoGaps == UNION {Owned(s) : s \in DOMAIN block} = 0..(next - 1)
SharedExactly == pending = {} =>
    \A a, b \in Cells : a # b => CellDofs(a) \cap CellDofs(b) = UNION {Owned(s) : s \in Faces(a) \cap Faces(b)}
LocalSize == pending = {} => \A c \in Cells : Cardinality(CellDofs(c)) = NComp * LocalDim(Fam, TopDim, Deg)
TotalCount == pending = {} =>
    next = LET f == [e \in 0..TopDim |-> Cardinality({s \in K : Dim(s) = e}) * NComp * ConformingDofs(Fam, TopDim, Deg, e)] IN SumTo(f, TopDim)
===========================================================================
