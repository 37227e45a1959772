------------------------------ MODULE CfaTrace ------------------------------
(* Colour filter patterns as a state machine: the state is a pattern and the *)
(* shift applied to it so far; the only action is another shift.  Recorded   *)
(* histories of the library are replayed against it.                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Develop

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLES c, k, dx, dy
vars == <<c, k, dx, dy>>
Init == c \in 1..Len(Cases) /\ k = 0 /\ dx = 0 /\ dy = 0
Shift == /\ k < Len(Cases[c].shifts)
         /\ k' = k + 1
         /\ dx' = dx + Cases[c].shifts[k'][1]
         /\ dy' = dy + Cases[c].shifts[k'][2]
         /\ UNCHANGED c
Spec == Init /\ [][Shift]_vars

At(C, y, x) == IF C.pw = 0 THEN 0 ELSE PatAt(C.pat, C.pw, C.ph, y, x)
Expected(C) == [n \in 1..C.h*C.w |-> At(C, C.y0 + dy + ((n-1) \div C.w), C.x0 + dx + ((n-1) % C.w))]
Observed == LET C == Cases[c] IN C.obs[k+1]
Conforms == LET C == Cases[c]
                O == Observed
            IN /\ O.res = "ok"
               /\ O.pattern = Expected(C)
               /\ O.cloned = O.pattern
               /\ O.width = C.pw /\ O.height = C.ph
               /\ O.valid = (C.pw # 0)
(* a shift by a whole pattern is no shift *)
Periodic == LET C == Cases[c] IN C.pw # 0 /\ dx % C.pw = 0 /\ dy % C.ph = 0 => Observed.pattern = C.obs[1].pattern
Report == [case |-> Cases[c].id, k |-> k, bad |-> <<"after shift", dx, dy, Observed>>]
=============================================================================
