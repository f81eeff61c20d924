--------------------------- MODULE ProductLayout ---------------------------
(* Block layout of several fields in one global vector: fields are placed  *)
(* one after the other, a base shift moves everything.  History: fields    *)
(* may be rebuilt (with a new size) and the shift reassigned at any time;  *)
(* an invalid shift is refused and leaves the layout as it was.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxFields, MaxDof, Shifts
VARIABLES sizes, shift, refused
vars == <<sizes, shift, refused>>
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Offset(f) == SumSeq(SubSeq(sizes, 1, f - 1))
Block(f) == (shift + Offset(f)) .. (shift + Offset(f) + sizes[f] - 1)
Total == SumSeq(sizes)

Init == sizes \in UNION {[1..n -> 0..MaxDof] : n \in 1..MaxFields} /\ shift = 0 /\ refused = FALSE
Rebuild == \E f \in DOMAIN sizes, k \in 0..MaxDof : sizes' = [sizes EXCEPT ![f] = k] /\ UNCHANGED shift /\ refused' = FALSE
SetShift == \E v \in Shifts : shift' = v /\ refused' = FALSE /\ UNCHANGED sizes
BadShift == refused' = TRUE /\ UNCHANGED <<sizes, shift>>
Next == Rebuild \/ SetShift \/ BadShift
Spec == Init /\ [][Next]_vars

Disjoint == \A f, g \in DOMAIN sizes : f # g => Block(f) \cap Block(g) = {}
Covering == UNION {Block(f) : f \in DOMAIN sizes} = shift .. (shift + Total - 1)
ShiftNonNegative == shift >= 0
============================================================================
