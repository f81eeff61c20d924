-------------------------- MODULE MeshBuildTrace --------------------------
(* Trace validation of mesh construction: events "new" (a new file),       *)
(* "declare" (a simplex written to the file) and "built" (the projected    *)
(* mesh after the build).                                                  *)
EXTENDS MeshBuild, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Report(b) == b = {} \/ PrintT(<<"BAD", l, b>>)

NodeCount(e) == Len(e.points)

MeshVerdict(e) ==
    IF e.err # "" THEN {"build-completes"}
    ELSE LET cells == e.cells IN
      IF ~ShapeOK(cells) THEN {"cells-are-simplices"}
      ELSE LET early ==
                 {n \in {"ids-dense", "every-simplex-once", "exactly-the-closure", "points-kept"} :
                    \/ n = "ids-dense" /\ ~IdsDense(cells)
                    \/ n = "every-simplex-once" /\ ~UniqueOK(cells)
                    \/ n = "exactly-the-closure" /\ Supports(cells) # K
                    \/ n = "points-kept" /\ e.points # e.inpoints}
           IN IF early # {} THEN early
              ELSE IF ~SubShapeOK(cells) THEN {"subcell-lists-complete"}
              ELSE {n \in {"subcells-in-reference-order", "self-listed", "physical-tags"} :
                    \/ n = "subcells-in-reference-order" /\ ~SubRefOK(cells)
                    \/ n = "self-listed" /\ ~SelfOK(cells)
                    \/ n = "physical-tags" /\ \E i \in DOMAIN cells : cells[i].mat # TagOf(RangeOf(cells[i].nodes))}

TNew(e) == K' = {} /\ tag' = <<>> /\ declared' = {}
TDeclare(e) == Declare(RangeOf(e.s), e.t)
TBuilt(e) == Report(MeshVerdict(e)) /\ UNCHANGED <<K, tag, declared>>

TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
         \/ e.ev = "new" /\ TNew(e)
         \/ e.ev = "declare" /\ TDeclare(e)
         \/ e.ev = "built" /\ TBuilt(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<K, tag, declared, l>>
Finished == PrintT(<<"END", TLCGet("stats").diameter - 1>>)
===========================================================================
