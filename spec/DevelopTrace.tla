--------------------------- MODULE DevelopTrace ----------------------------
(* Checks recorded developments.  A behaviour looks at one row per step.    *)
(* Values are fixed point with 16 fractional bits.                          *)
(*   kind "size":   the delivered size                                      *)
(*   kind "same":   row by row equal to a second picture, turned by orient  *)
(*   kind "region": a reduced picture of a flat field with a rectangle      *)
(*   kind "tone":   a grey ramp: order, range, end points, 8 bit, gamma     *)
EXTENDS Develop, Json, IOUtils
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
Curve == TLCEval(JsonDeserialize(IOEnv.CURVE))
N == Len(Cases)
VARIABLES c, k, bad
vars == <<c, k, bad>>

Px(P, x, y, i) == P.data[(y*P.w + x)*3 + i]            \* i in 1..3
Near(a, b, t) == a - b <= t /\ b - a <= t

Shape(C) ==
  IF C.res # "ok" THEN <<"not developed", C.res>>
  ELSE IF C.a.len # C.a.w * C.a.h * 3 THEN <<"data length", C.a.len, "for", C.a.w, C.a.h>>
  ELSE IF ~SizeOK(C.cw, C.ch, C.mw, C.mh, C.orient, C.a.w, C.a.h)
    THEN <<"size", C.a.w, C.a.h, "of", C.cw, C.ch, "within", C.mw, C.mh, "orientation", C.orient>>
  ELSE IF C.kind = "same" /\ ~(IF Swaps(C.orient) THEN C.b.w = C.a.h /\ C.b.h = C.a.w ELSE C.b.w = C.a.w /\ C.b.h = C.a.h)
    THEN <<"sizes differ", C.a.w, C.a.h, C.b.w, C.b.h>>
  ELSE <<>>

First(S) == CHOOSE e \in S : \A d \in S : e <= d

SameRow(C, y) ==
  LET W == {x \in 0..C.a.w-1 : LET s == Source(C.orient, C.a.w, C.a.h, x, y) IN
              \E i \in 1..3 : ~Near(Px(C.a, x, y, i), Px(C.b, s[1], s[2], i), C.tol)}
  IN IF W = {} THEN <<>>
     ELSE LET x == First(W)
              s == Source(C.orient, C.a.w, C.a.h, x, y)
          IN <<"pixel", x, y, "is", <<Px(C.a, x, y, 1), Px(C.a, x, y, 2), Px(C.a, x, y, 3)>>,
               "expected", <<Px(C.b, s[1], s[2], 1), Px(C.b, s[1], s[2], 2), Px(C.b, s[1], s[2], 3)>>>>

(* the original columns (rows) that pixel i of n touches in s, with slack *)
Lo(i, n, s, m) == ((i*s) \div n) - m
Hi(i, n, s, m) == (((i+1)*s + n - 1) \div n) - 1 + m
RegionRow(C, y) ==
  LET inside(x) == /\ Lo(x, C.a.w, C.cw, C.slack) >= C.rect[1] /\ Hi(x, C.a.w, C.cw, C.slack) <= C.rect[3]
                   /\ Lo(y, C.a.h, C.ch, C.slack) >= C.rect[2] /\ Hi(y, C.a.h, C.ch, C.slack) <= C.rect[4]
      apart(x) == \/ Hi(x, C.a.w, C.cw, C.slack) < C.rect[1] \/ Lo(x, C.a.w, C.cw, C.slack) > C.rect[3]
                  \/ Hi(y, C.a.h, C.ch, C.slack) < C.rect[2] \/ Lo(y, C.a.h, C.ch, C.slack) > C.rect[4]
      \* next to the border a colour of a large pattern may have no neighbour
      rim(x) == C.edge /\ (x = 0 \/ y = 0 \/ x = C.a.w-1 \/ y = C.a.h-1)
      W == {x \in 0..C.a.w-1 : ~rim(x) /\ \E i \in 1..3 :
              \/ inside(x) /\ ~Near(Px(C.a, x, y, i), C.inner[i], C.tol)
              \/ apart(x) /\ ~Near(Px(C.a, x, y, i), C.outer[i], C.tol)}
  IN IF W = {} THEN <<>>
     ELSE LET x == First(W) IN <<"pixel", x, y, IF inside(x) THEN "inside" ELSE "outside",
                                 <<Px(C.a, x, y, 1), Px(C.a, x, y, 2), Px(C.a, x, y, 3)>>,
                                 "expected", IF inside(x) THEN C.inner ELSE C.outer>>

ONE == 65536
(* the transfer curve between two of its knots, by monotonicity *)
GammaOK(lin, g) ==
  LET v == IF lin < 0 THEN 0 ELSE IF lin > ONE THEN ONE ELSE lin
      j == v \div 64
      hi == IF j + 2 > Len(Curve) THEN Len(Curve) ELSE j + 2
  IN g >= Curve[j+1] - 24 /\ g <= Curve[hi] + 24
(* a = linear, g = gamma, e = 8 bit pictures of one ramp, one row each *)
ToneRow(C, y) ==
  LET L(x, i) == Px(C.a, x, y, i)
      G(x, i) == Px(C.g, x, y, i)
      E8(x, i) == Px(C.e, x, y, i)
      W == {x \in 0..C.a.w-1 : \E i \in 1..3 :
              \/ G(x, i) < 0 \/ G(x, i) > ONE
              \/ E8(x, i) < 0 \/ E8(x, i) > 255
              \/ ~(E8(x, i)*ONE <= G(x, i)*255 + ONE \div 2 + 1310 /\ G(x, i)*255 <= (E8(x, i) + 1)*ONE + 1310)
              \/ ~GammaOK(L(x, i), G(x, i))
              \/ C.grey /\ ~Near(L(x, i), L(x, 2), 80)
              \/ C.grey /\ x > 0 /\ (L(x, i) < L(x-1, i) - 6 \/ G(x, i) < G(x-1, i) - 24)
              \/ C.grey /\ x \in {C.blackat[n] : n \in 1..Len(C.blackat)} /\ ~(G(x, i) <= 40)
              \/ C.grey /\ x \in {C.whiteat[n] : n \in 1..Len(C.whiteat)} /\ ~(G(x, i) >= ONE - 80 /\ L(x, i) <= ONE + 80)
              \/ C.grey /\ x \in {C.midat[n] : n \in 1..Len(C.midat)} /\ ~Near(L(x, i), C.mid, 40)}
  IN IF W = {} THEN <<>>
     ELSE LET x == First(W) IN <<"column", x, "linear", <<L(x,1), L(x,2), L(x,3)>>, "before", IF x > 0 THEN L(x-1, 2) ELSE 0,
                                 "gamma", <<G(x,1), G(x,2), G(x,3)>>, "8 bit", <<E8(x,1), E8(x,2), E8(x,3)>>>>

RowOf(C, y) == CASE C.kind = "same" -> SameRow(C, y)
                 [] C.kind = "region" -> RegionRow(C, y)
                 [] C.kind = "tone" -> ToneRow(C, y)
                 [] OTHER -> <<>>
Rows(C) == IF C.kind = "size" \/ Shape(C) # <<>> THEN 0 ELSE C.a.h
Init == c \in 1..N /\ k = 0 /\ bad = Shape(Cases[c])
Next == /\ bad = <<>> /\ k < Rows(Cases[c])
        /\ bad' = RowOf(Cases[c], k)
        /\ k' = k + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
Report == [case |-> Cases[c].id, k |-> k, bad |-> bad]
=============================================================================
