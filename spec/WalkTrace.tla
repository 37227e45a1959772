------------------------------ MODULE WalkTrace -----------------------------
(* What the real reader found in files laid out as graphs of directories.   *)
(* A case is [id, g: the graph, make: the directory whose Make came out, 0  *)
(* if none].                                                                *)
EXTENDS Walk, Json, IOUtils
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLE c
Verdict(C) == IF AnswerOK(C.g, C.make) THEN <<>>
              ELSE <<"found", C.make, "instead of", IF Acyclic(C.g) THEN First(C.g) ELSE Reach(C.g), C.g>>
Init == c \in 1..Len(Cases)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Conforms == Verdict(Cases[c]) = <<>>
Report == [case |-> Cases[c].id, bad |-> Verdict(Cases[c])]
=============================================================================
