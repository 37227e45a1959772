------------------------------ MODULE WalkPlan ------------------------------
(* Writes all graphs of N directories with up to K pointers each. *)
EXTENDS Walk, Json, IOUtils, SequencesExt
N == atoi(IOEnv.DIRS)
K == atoi(IOEnv.POINTERS)
VARIABLE x
Wanted(G) == Reach(G) = Dirs(G) /\ (IOEnv.ACYCLIC = "1" => Acyclic(G))
Init == x = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq({G \in Graphs(N, K) : Wanted(G)}))
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================
