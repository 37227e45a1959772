------------------------------ MODULE ColorTrace ------------------------------
(* Camera colour: what cam_to_xyz and neutralwb have to be, and what a scene    *)
(* colour has to look like after developing.  All numbers are fixed point,      *)
(* U = 2^14 stands for one.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
N == Len(Cases)
VARIABLES c, k, bad
vars == <<c, k, bad>>
U == 16384
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
(* product of two fixed point numbers below 2^19 *)
Mul(a, b) == LET p == Abs(a) q == Abs(b) IN Sgn(a)*Sgn(b)*((p * (q \div 128) + (p * (q % 128)) \div 128) \div 128)
(* quotient as a fixed point number, |b| < 2^30 *)
RECURSIVE Long(_,_,_,_)
Long(r, b, q, i) == IF i = 14 THEN q ELSE LET r2 == 2*r IN IF r2 >= b THEN Long(r2 - b, b, 2*q + 1, i+1) ELSE Long(r2, b, 2*q, i+1)
Div(a0, b0) == LET a == Abs(a0) \div 2  b == Abs(b0) \div 2 IN Sgn(a0)*Sgn(b0)*Long(a % b, b, a \div b, 0)

(* linear sRGB to XYZ, times U *)
S == << <<6758, 5859, 2956>>, <<3484, 11717, 1182>>, <<317, 1953, 15569>> >>
D65 == << 15573, 16384, 17839 >>
Target(i, j) == Div(S[i][j], D65[i])

Raw(X, i, j) == X[i][1]*S[1][j] + X[i][2]*S[2][j] + X[i][3]*S[3][j]
Num(X, i) == Raw(X, i, 1) + Raw(X, i, 2) + Raw(X, i, 3)
(* response of the camera to the three primaries; white gives one everywhere *)
Resp(X) == [i \in 1..4 |-> [j \in 1..3 |-> IF Num(X, i) = 0 THEN 0 ELSE Div(Raw(X, i, j), Num(X, i))]]
Colors(X) == {i \in 1..4 : Num(X, i) # 0}

Sum4(f(_)) == f(1) + f(2) + f(3) + f(4)
(* a vector orthogonal to the three columns of the response *)
Det(R, a, b, d) ==   Mul(R[a][1], Mul(R[b][2], R[d][3]) - Mul(R[b][3], R[d][2]))
                   - Mul(R[a][2], Mul(R[b][1], R[d][3]) - Mul(R[b][3], R[d][1]))
                   + Mul(R[a][3], Mul(R[b][1], R[d][2]) - Mul(R[b][2], R[d][1]))
Normal(R) == << Det(R, 2, 3, 4), -Det(R, 1, 3, 4), Det(R, 1, 2, 4), -Det(R, 1, 2, 3) >>

(* C: X matrix, M observed conversion, n observed neutral white balance, tol *)
Inverts(C) ==
  LET R == TLCEval(Resp(C.X))
      bad1 == {ij \in (1..3) \X (1..3) :
                 LET t(q) == Mul(C.M[ij[1]][q], R[q][ij[2]])
                     w(q) == Abs(C.M[ij[1]][q]) + Abs(R[q][ij[2]])
                 IN Abs(Sum4(t) - Target(ij[1], ij[2])) > C.tol + 8 + Sum4(w) \div 8192}
      bad2 == {i \in 1..3 : LET t(q) == IF q \in Colors(C.X) THEN C.M[i][q] ELSE 0 IN Abs(Sum4(t) - U) > C.tol + 8}
      bad3 == {i \in 1..3 : \E q \in (1..4) \ Colors(C.X) : Abs(C.M[i][q]) > 4}
      nv == TLCEval(Normal(R))
      bad4 == IF Cardinality(Colors(C.X)) < 4 THEN {}
              ELSE {i \in 1..3 : LET t(q) == Mul(C.M[i][q], nv[q])
                                     w(q) == Abs(C.M[i][q]) IN Abs(Sum4(t)) > 2*C.tol + 32 + Sum4(w) \div 2048}
      bad5 == {q \in Colors(C.X) : LET e == Div(Num(C.X, 2), Num(C.X, q)) IN Abs(C.n[q] - e) > 4 + Abs(e) \div 1024}
  IN IF bad1 # {} THEN <<"not the inverse at", CHOOSE p \in bad1 : TRUE>>
     ELSE IF bad2 # {} THEN <<"equal values are not white in row", CHOOSE p \in bad2 : TRUE>>
     ELSE IF bad3 # {} THEN <<"a missing colour contributes in row", CHOOSE p \in bad3 : TRUE>>
     ELSE IF bad4 # {} THEN <<"not the best fit of the four colours in row", CHOOSE p \in bad4 : TRUE>>
     ELSE IF bad5 # {} THEN <<"neutral white balance of colour", CHOOSE p \in bad5 : TRUE>>
     ELSE <<>>

(* Scene colours of middle lightness, where the tone curve is the identity.     *)
(* s.rgb is the linear scene colour, s.cam the camera values after white        *)
(* balance given to the library, s.out the developed linear colour (times U)    *)
Scene(C, m) ==
  LET R == Resp(C.X)  s == C.scene[m]
      cam(q) == Mul(R[q][1], s.rgb[1]) + Mul(R[q][2], s.rgb[2]) + Mul(R[q][3], s.rgb[3])
      wrong == {q \in Colors(C.X) : Abs(cam(q) - s.cam[q]) > 12}
      off == {i \in 1..3 : Abs(s.out[i] - s.rgb[i]) > s.tol}
  IN IF wrong # {} THEN Assert(FALSE, <<"the generator disagrees with the specification", C.id, m, s, [q \in 1..4 |-> cam(q)]>>)
     ELSE IF off # {} THEN <<"scene colour", s.rgb, "developed as", s.out>> ELSE <<>>
(* the camera's own response to white, developed without a white balance: grey *)
Grey(C) == {m \in 1..Len(C.grey) : \E i \in 1..3 : Abs(C.grey[m][i] - C.grey[m][2]) > 24}

Init == c \in 1..N /\ k = 0
        /\ bad = IF Cases[c].res # "ok" THEN <<"outcome", Cases[c].res>>
                 ELSE LET b == Inverts(Cases[c]) IN
                      IF b # <<>> THEN b ELSE IF Grey(Cases[c]) # {} THEN <<"camera white developed as", Cases[c].grey[CHOOSE m \in Grey(Cases[c]) : TRUE]>> ELSE <<>>
Next == /\ bad = <<>> /\ k < Len(Cases[c].scene)
        /\ k' = k + 1 /\ bad' = Scene(Cases[c], k') /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
Report == [case |-> Cases[c].id, k |-> k, bad |-> bad]
=============================================================================
