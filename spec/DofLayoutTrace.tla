-------------------------- MODULE DofLayoutTrace --------------------------
(* Events: "mesh" loads the observed mesh; "space" is a space built on it  *)
(* with everything it reports; "product" is a product space with its       *)
(* per-field and concatenated destinations.                                *)
EXTENDS DofLayout, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cells
Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)
C(i) == cells[i + 1]
IdsOf(d) == {i \in 0..(Len(cells) - 1) : C(i).d = d}

SelectedCells(e) == {i \in IdsOf(e.dim) : C(i).mat \in RangeOf(e.tags)}
Entities(S, x) == UNION {RangeOf(C(i).sub[x + 1]) : i \in S}
Kd(e, x) == EntityDofs(e.family, e.dim, e.k, e.disc, x)

\* offset (0-based) of the j-th sub-entity of dimension x in the local vector
LocalOffset(e, x, j) ==
    LET f == [y \in 0..3 |-> IF y < x THEN NumSub(e.dim, y) * Kd(e, y) ELSE 0] IN e.ncomp * (SumTo(f, 3) + (j - 1) * Kd(e, x))
LocalLen(e) == LET f == [y \in 0..e.dim |-> NumSub(e.dim, y) * Kd(e, y)] IN e.ncomp * SumTo(f, e.dim)
Total(e) == LET S == SelectedCells(e)
                f == [y \in 0..e.dim |-> IF Kd(e, y) = 0 THEN 0 ELSE Cardinality(Entities(S, y)) * Kd(e, y)] IN e.ncomp * SumTo(f, e.dim)

\* <<dimension, entity id, block>> for every (cell, sub-entity) pair
Blocks(e) == UNION { LET D == e.dests[n] c == C(D.id) IN
                UNION { IF Kd(e, x) = 0 THEN {} ELSE
                        { <<x, c.sub[x + 1][j], SubSeq(D.dest, LocalOffset(e, x, j) + 1, LocalOffset(e, x, j) + e.ncomp * Kd(e, x))>> :
                             j \in 1..NumSub(e.dim, x) } : x \in 0..e.dim }
              : n \in DOMAIN e.dests }

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* expected boundary destinations of facet b: the blocks of its closure, facet order
BcExpect(e, B, b) ==
    LET f == C(b)
        blk(x, i) == LET m == {t \in B : t[1] = x /\ t[2] = i} IN IF m = {} THEN <<-7>> ELSE (CHOOSE t \in m : TRUE)[3]
        perdim(x) == IF Kd(e, x) = 0 THEN <<>> ELSE Concat([j \in DOMAIN f.sub[x + 1] |-> blk(x, f.sub[x + 1][j])])
    IN Concat([x \in 1..e.dim |-> perdim(x - 1)])

SpaceVerdict(e) ==
  IF e.err # "" THEN {"space-completes"}
  ELSE LET S == SelectedCells(e) IN
    IF RangeOf(e.elements) # S \/ Len(e.elements) # Cardinality(S) THEN {"one-element-per-selected-cell"}
    ELSE IF {e.dests[n].id : n \in DOMAIN e.dests} # S THEN {"dests-for-every-element"}
    ELSE IF \E n \in DOMAIN e.dests : Len(e.dests[n].dest) # LocalLen(e) THEN {"local-size"}
    ELSE LET B == Blocks(e)
             all == UNION {RangeOf(e.dests[n].dest) : n \in DOMAIN e.dests}
             ents == {<<b[1], b[2]>> : b \in B}
             lo == e.shift  hi == e.shift + e.ndof - 1
         IN {n \in {"count-formula", "gap-free-range", "one-block-per-entity", "entities-disjoint", "no-repeat-in-cell",
                    "boundary-elements", "boundary-destinations", "boundary-both-sides"} :
              \/ n = "count-formula" /\ e.ndof # Total(e)
              \/ n = "gap-free-range" /\ all # lo..hi
              \/ n = "one-block-per-entity" /\ Cardinality(ents) # Cardinality(B)
              \/ n = "entities-disjoint" /\ Cardinality(UNION {RangeOf(b[3]) : b \in B}) # LET q == Cardinality(all) IN
                         LET cnt == [y \in 0..e.dim |-> Cardinality({t \in ents : t[1] = y}) * e.ncomp * Kd(e, y)] IN SumTo(cnt, e.dim)
              \/ n = "no-repeat-in-cell" /\ \E m \in DOMAIN e.dests : Cardinality(RangeOf(e.dests[m].dest)) # LocalLen(e)
              \/ n = "boundary-elements" /\
                   (RangeOf(e.bcelements) # (IF e.dim = 0 THEN {} ELSE {i \in Entities(S, e.dim - 1) : C(i).mat \in RangeOf(e.btags)}) \/ Len(e.bcelements) # Cardinality(RangeOf(e.bcelements)))
              \/ n = "boundary-destinations" /\ \E m \in DOMAIN e.bcdests : e.bcdests[m].dest # BcExpect(e, B, e.bcdests[m].b)
              \/ n = "boundary-both-sides" /\ \E m, q \in DOMAIN e.bcdests : e.bcdests[m].b = e.bcdests[q].b /\ e.bcdests[m].dest # e.bcdests[q].dest }

\* --- product spaces -----------------------------------------------------
Off(e, f) == LET g == [i \in 0..Len(e.fields) |-> IF i >= 1 /\ i < f THEN e.fields[i].ndof ELSE 0] IN SumTo(g, Len(e.fields))
Shifted(s, a) == [i \in DOMAIN s |-> s[i] + a]
ProductVerdict(e) ==
  IF e.expecterr THEN (IF e.err = "" THEN {"invalid-shift-rejected"} ELSE {})
  ELSE IF e.err # "" THEN {"product-completes"}
  ELSE {n \in {"total-is-sum-of-fields", "field-block", "whole-is-concatenation", "boundary-field-block", "boundary-concatenation", "inside-range",
            "same-selection-same-order", "shift-value"} :
     \/ n = "shift-value" /\ e.shift # e.wantshift
     \/ n = "same-selection-same-order" /\ \E f, g \in DOMAIN e.fields :
            \/ e.fields[f].sig = e.fields[g].sig /\ e.fields[f].els # e.fields[g].els
            \/ e.fields[f].bsig = e.fields[g].bsig /\ e.fields[f].bcs # e.fields[g].bcs
     \/ n = "total-is-sum-of-fields" /\ e.ndof # Off(e, Len(e.fields) + 1)
     \/ n = "field-block" /\ \E m \in DOMAIN e.dests : \E f \in DOMAIN e.fields :
            \/ e.dests[m].byname[f] # Shifted(e.dests[m].own[f], Off(e, f) + e.shift)
            \/ e.dests[m].bymap[f] # Shifted(e.dests[m].own[f], Off(e, f) + e.shift)
     \/ n = "whole-is-concatenation" /\ \E m \in DOMAIN e.dests :
            e.dests[m].whole # Concat([f \in DOMAIN e.fields |-> Shifted(e.dests[m].own[f], Off(e, f) + e.shift)])
     \/ n = "inside-range" /\ \E m \in DOMAIN e.dests : \E i \in DOMAIN e.dests[m].whole :
            e.dests[m].whole[i] \notin e.shift..(e.shift + e.ndof - 1)
     \/ n = "boundary-field-block" /\ \E m \in DOMAIN e.bcdests : \E f \in DOMAIN e.fields : e.fields[f].nbc > 0 /\
            e.bcdests[m].byname[f] # Shifted(e.bcdests[m].own[f], Off(e, f) + e.shift)
     \/ n = "boundary-concatenation" /\ \E m \in DOMAIN e.bcdests :
            e.bcdests[m].whole # Concat([f \in DOMAIN e.fields |-> IF e.fields[f].nbc = 0 THEN <<>> ELSE Shifted(e.bcdests[m].own[f], Off(e, f) + e.shift)]) }

TraceInit == l = 1 /\ cells = <<>> /\ K = {} /\ pending = {} /\ block = <<>> /\ next = 0
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ UNCHANGED lvars
    /\ LET e == Trace[l] IN
         \/ e.ev = "mesh" /\ cells' = e.cells
         \/ e.ev = "space" /\ Report(SpaceVerdict(e)) /\ UNCHANGED cells
         \/ e.ev = "product" /\ Report(ProductVerdict(e)) /\ UNCHANGED cells
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l, cells>>
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
