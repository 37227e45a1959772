----------------------------- MODULE LifeTrace ------------------------------
(* Checks what real processes were seen to do against Life: every call      *)
(* ends, with an image or an error, and its answer is that of the content.  *)
(* An observation is <<event, ...>>; answers are numbered, 0 if a call did  *)
(* not return.  fresh[c] is the answer to content c by a process that did   *)
(* nothing else.                                                            *)
(*   <<"w", p, c>>  content c was put at path p                             *)
(*   <<"x", p>>     the file at p was removed                               *)
(*   <<"d", p, a>>  decoding p gave answer a                                *)
(*   <<"m", c, a>>  content c, found elsewhere or by another thread, gave a *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
N == Len(Cases.cases)
VARIABLES c, i, disk, bad
vars == <<c, i, disk, bad>>
Ev == Cases.cases[c].events
Fresh(ct) == IF ct = 0 THEN Cases.missing ELSE Cases.fresh[ct]
Judge(e) ==
  IF e[1] = "d" THEN IF e[3] = Fresh(disk[e[2]]) THEN <<>> ELSE <<"event", i, "content", disk[e[2]], "answer", e[3], "instead of", Fresh(disk[e[2]])>>
  ELSE IF e[1] = "m" THEN IF e[3] = Fresh(e[2]) THEN <<>> ELSE <<"event", i, "content", e[2], "answer", e[3], "instead of", Fresh(e[2])>>
  ELSE <<>>
Init == c \in 1..N /\ i = 1 /\ disk = [p \in 1..2 |-> 0] /\ bad = <<>>
Next == /\ i <= Len(Ev) /\ bad = <<>>
        /\ bad' = Judge(Ev[i])
        /\ disk' = CASE Ev[i][1] = "w" -> [disk EXCEPT ![Ev[i][2]] = Ev[i][3]]
                     [] Ev[i][1] = "x" -> [disk EXCEPT ![Ev[i][2]] = 0]
                     [] OTHER -> disk
        /\ i' = i + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
Report == [case |-> Cases.cases[c].id, i |-> i, bad |-> bad]
=============================================================================
