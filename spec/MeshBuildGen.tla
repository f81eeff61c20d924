--------------------------- MODULE MeshBuildGen ---------------------------
(* Prints every set of tagged declarations reached by MeshBuild (as JSON), *)
(* for replay into the implementation.                                     *)
EXTENDS MeshBuild, Json, SequencesExt
Emit == declared = {} \/ PrintT(ToJson(SetToSeq({<<SetToSeq(s), tag[s]>> : s \in declared})))
===========================================================================
