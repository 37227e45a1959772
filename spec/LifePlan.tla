------------------------------ MODULE LifePlan ------------------------------
(* Writes all histories of one thread (of Life) of a length, for the        *)
(* harness to replay: writing one of three contents to one of two paths,    *)
(* decoding what is there, removing it.                                     *)
EXTENDS Naturals, Sequences, Json, IOUtils, SequencesExt
Ops(P, C) == {<<"w", p, c>> : p \in P, c \in C} \cup {<<"d", p>> : p \in P} \cup {<<"x", p>> : p \in P}
(* the first does something, the last is looked at *)
Histories(P, C, n) == {h \in [1..n -> Ops(P, C)] : h[n][1] = "d" /\ h[1][1] = "w"}
N == atoi(IOEnv.LENGTH)
VARIABLE x
Init == x = 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Histories({1, 2}, {1, 2, 3}, N)))
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================
