-------------------------------- MODULE Life --------------------------------
(* The library as a process sees it: files appear, change and go away,      *)
(* threads call decode, the camera table is built once by whoever comes     *)
(* first.  A call ends with the answer to the content it opened - an image  *)
(* or an error - whatever happened before and is going on elsewhere; a call *)
(* whose decoding breaks down ends in an error and leaves nothing behind.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Paths, Contents, Broken, Threads, Calls
VARIABLES disk, table, call, done
vars == <<disk, table, call, done>>
None == "none"
(* the answer is a function of the content alone *)
Answer(c) == IF c = None THEN "error: no such file" ELSE IF c \in Broken THEN "error" ELSE <<"image", c>>

Init == /\ disk = [p \in Paths |-> None]
        /\ table = "none"
        /\ call = [t \in Threads |-> <<"idle">>]
        /\ done = {}
Write(p, c) == disk' = [disk EXCEPT ![p] = c] /\ UNCHANGED <<table, call, done>>
Delete(p) == disk' = [disk EXCEPT ![p] = None] /\ UNCHANGED <<table, call, done>>
Start(t, p) == /\ call[t][1] = "idle" /\ Cardinality(done) < Calls
               /\ call' = [call EXCEPT ![t] = <<"table", p>>]
               /\ UNCHANGED <<disk, table, done>>
Build(t) == /\ call[t][1] = "table" /\ table = "none" /\ table' = t
            /\ UNCHANGED <<disk, call, done>>
Built(t) == /\ table = t /\ table' = "ready" /\ UNCHANGED <<disk, call, done>>
Open(t) == /\ call[t][1] = "table" /\ table = "ready"
           /\ call' = [call EXCEPT ![t] = <<"read", @[2], disk[@[2]]>>]
           /\ UNCHANGED <<disk, table, done>>
(* a content that breaks the decoder down is caught at the edge of the call *)
Return(t) == /\ call[t][1] = "read"
             /\ done' = done \cup {<<Cardinality(done), call[t][3], Answer(call[t][3])>>}
             /\ call' = [call EXCEPT ![t] = <<"idle">>]
             /\ UNCHANGED <<disk, table>>
Next == \/ \E p \in Paths, c \in Contents : Write(p, c)
        \/ \E p \in Paths : Delete(p)
        \/ \E t \in Threads, p \in Paths : Start(t, p)
        \/ \E t \in Threads : Build(t) \/ Built(t) \/ Open(t) \/ Return(t)
Fair == \A t \in Threads : WF_vars(Build(t)) /\ WF_vars(Built(t)) /\ WF_vars(Open(t)) /\ WF_vars(Return(t))
Spec == Init /\ [][Next]_vars /\ Fair

Answered == \A d \in done : d[3] = Answer(d[2])
Once == table \in {"none", "ready"} \cup Threads
Returns == \A t \in Threads : (call[t][1] # "idle") ~> (call[t][1] = "idle")

=============================================================================
