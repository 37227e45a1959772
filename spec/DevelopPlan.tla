---------------------------- MODULE DevelopPlan ----------------------------
(* Generates, from the specification, the reference picture of every case.  *)
(* The harness then develops the case and its reference with the real code. *)
EXTENDS Develop, Json, IOUtils
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLE c
Init == c \in 1..Len(Cases)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == JsonSerialize(IOEnv.OUTDIR \o "/" \o ToString(c) \o ".json", Reference(Cases[c]))
=============================================================================
