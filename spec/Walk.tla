------------------------------- MODULE Walk --------------------------------
(* The directories of a TIFF file as a graph, and what a reader finds in it.*)
(* A directory is [make |-> has a Make of its own, subs |-> the directories *)
(* it points at, in order, next |-> the following one, 0 for none].  The    *)
(* first directory is the one the header points at.  Only the chain of the  *)
(* header's directories goes on through next.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Dirs(G) == 1..Len(G)
Subs(G, d) == {G[d].subs[i] : i \in 1..Len(G[d].subs)}

RECURSIVE Grow(_, _)
Grow(S, Edge) == LET T == S \cup UNION {Edge[d] : d \in S} IN IF T = S THEN S ELSE Grow(T, Edge)
Below(G) == [d \in Dirs(G) |-> Subs(G, d)]
Chain(G) == Grow({1}, [d \in Dirs(G) |-> {G[d].next} \ {0}])
Reach(G) == Grow(Chain(G), Below(G))

(* no directory is contained in itself, and the chain does not return *)
RECURSIVE ChainEnds(_, _, _)
ChainEnds(G, d, n) == IF d = 0 THEN TRUE ELSE IF n = 0 THEN FALSE ELSE ChainEnds(G, G[d].next, n - 1)
Acyclic(G) ==
  /\ ChainEnds(G, 1, Len(G))
  /\ \A d \in Reach(G) : d \notin Grow(Subs(G, d), Below(G))

(* the first Make: a directory's own before those of the ones it points at, *)
(* in the order of the pointers, before those of the next in the chain      *)
RECURSIVE Find(_, _), FindIn(_, _, _), FindChain(_, _)
Find(G, d) == IF G[d].make THEN d ELSE FindIn(G, d, 1)
FindIn(G, d, i) == IF i > Len(G[d].subs) THEN 0
                   ELSE LET f == Find(G, G[d].subs[i]) IN IF f # 0 THEN f ELSE FindIn(G, d, i + 1)
FindChain(G, d) == IF d = 0 THEN 0 ELSE LET f == Find(G, d) IN IF f # 0 THEN f ELSE FindChain(G, G[d].next)
First(G) == FindChain(G, 1)

(* what a reader may answer: the Make of directory m, or none (0) *)
AnswerOK(G, m) ==
  IF Acyclic(G) THEN m = First(G)
  ELSE m = 0 \/ (m \in Reach(G) /\ G[m].make)

(* all graphs of n directories with up to k pointers each *)
SeqUpTo(S, k) == UNION {[1..i -> S] : i \in 0..k}
Graphs(n, k) == [1..n -> [make : BOOLEAN, subs : SeqUpTo(1..n, k), next : 0..n]]
=============================================================================
