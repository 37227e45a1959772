---------------------------- MODULE AnswerTrace -----------------------------
(* What single calls came to, whatever the file.  A case is <<id, res,      *)
(* width, height, components, samples, crops, pictures>>, a picture         *)
(* <<res, width, height, samples>>; res is "ok", "err", or how the call     *)
(* failed to return.  Numbers that do not fit are -1.                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
Aspects == TLCEval(JsonDeserialize(IOEnv.ASPECTS))
On(a) == \E k \in 1..Len(Aspects) : Aspects[k] = a
VARIABLE c
(* len = w*h*n, without large products *)
Is(len, w, h, n) == /\ w > 0 /\ h > 0 /\ n > 0 /\ len > 0
                    /\ len % w = 0 /\ (len \div w) % h = 0 /\ (len \div w) \div h = n
Left(size, a, b) == a >= 0 /\ b >= 0 /\ a < size /\ b < size - a
Usable(C) == Left(C[3], C[7][4], C[7][2]) /\ Left(C[4], C[7][1], C[7][3])
Picture(C, P) ==
  CASE P[1] = "ok" -> IF ~Usable(C) THEN <<"developed, but the crop leaves nothing", C[3], C[4], C[7]>>
                      ELSE IF ~Is(P[4], P[2], P[3], 3) THEN <<"picture of", P[2], P[3], "has samples", P[4]>> ELSE <<>>
    [] P[1] = "err" -> IF Usable(C) THEN <<"not developed", C[3], C[4], C[7]>> ELSE <<>>
    [] OTHER -> <<"developing did not return", P[1]>>
Verdict(C) ==
  CASE C[2] = "err" -> <<>>
    [] C[2] = "ok" ->
         IF On("shape") /\ ~Is(C[6], C[3], C[4], C[5]) THEN <<"image of", C[3], C[4], C[5], "has samples", C[6]>>
         ELSE IF On("shape") /\ C[5] \notin {1, 3} THEN <<"components", C[5]>>
         ELSE IF On("picture") /\ \E k \in 1..Len(C[8]) : Picture(C, C[8][k]) # <<>>
           THEN Picture(C, C[8][CHOOSE k \in 1..Len(C[8]) : Picture(C, C[8][k]) # <<>>])
         ELSE <<>>
    [] OTHER -> IF On("returns") THEN <<"did not return", C[2]>> ELSE <<>>
Init == c \in 1..Len(Cases)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Conforms == Verdict(Cases[c]) = <<>>
Report == [case |-> Cases[c][1], bad |-> Verdict(Cases[c])]
=============================================================================
