------------------------------ MODULE Develop ------------------------------
(* What developing a raw image means, on integers.                          *)
(*                                                                          *)
(* An image C has w, h, cpp, crops = <<top, right, bottom, left>>, data (row *)
(* major, cpp samples per pixel), and for mosaics a filter pattern pat of   *)
(* pw x ph colours (0 red, 1 green, 2 blue, 3 fourth; pw = 0: monochrome).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

Top(C) == C.crops[1]
Left(C) == C.crops[4]
CW(C) == C.w - C.crops[2] - C.crops[4]      \* cropped size
CH(C) == C.h - C.crops[1] - C.crops[3]
Raw(C, y, x, k) == C.data[((y + Top(C))*C.w + x + Left(C))*C.cpp + k + 1]

(* the filter pattern repeats from the corner of the uncropped sensor *)
PatAt(pat, pw, ph, y, x) == pat[(y % ph)*pw + (x % pw) + 1]
Colour(C, y, x) == PatAt(C.pat, C.pw, C.ph, y + Top(C), x + Left(C))

Exact(n, d) == IF Assert(n % d = 0, <<"not divisible", n, d>>) THEN n \div d ELSE 0
SumOver(S, f(_)) == FoldSet(LAMBDA e, a : a + f(e), 0, S)

(* --- full size: own colour from the pixel, others from direct neighbours *)
Around(C, y, x) == {p \in (y-1..y+1) \X (x-1..x+1) : p[1] >= 0 /\ p[1] < CH(C) /\ p[2] >= 0 /\ p[2] < CW(C)}
FullAt(C, y, x, c) ==
  IF C.cpp = 3 THEN (IF c = 3 THEN 0 ELSE Raw(C, y, x, c))
  ELSE IF C.pw = 0 THEN (IF c = 3 THEN 0 ELSE Raw(C, y, x, 0))
  ELSE IF Colour(C, y, x) = c THEN Raw(C, y, x, 0)
  ELSE LET S == {p \in Around(C, y, x) : Colour(C, p[1], p[2]) = c}
       IN IF S = {} THEN 0 ELSE Exact(SumOver(S, LAMBDA p : Raw(C, p[1], p[2], 0)), Cardinality(S))

(* --- reduced by a whole factor: the average over the covered block *)
Block(f, y, x) == (y*f..y*f+f-1) \X (x*f..x*f+f-1)
BlockAt(C, f, y, x, c) ==
  IF C.cpp = 3 \/ C.pw = 0
  THEN LET S == Block(f, y, x) IN Exact(SumOver(S, LAMBDA p : FullAt(C, p[1], p[2], c)), f*f)
  ELSE LET S == {p \in Block(f, y, x) : Colour(C, p[1], p[2]) = c}
       IN IF S = {} THEN 0 ELSE Exact(SumOver(S, LAMBDA p : Raw(C, p[1], p[2], 0)), Cardinality(S))

ColourAt(C, f, y, x, c) == IF f = 1 THEN FullAt(C, y, x, c) ELSE BlockAt(C, f, y, x, c)

(* --- levels and white balance: p/q is the multiplier of the colour        *)
(* relative to green.  (v - black) / (white - black) * p/q, at most 1, is   *)
(* the same as Lev / Wht on a scale that starts at zero.                    *)
Wht(C, c) == (C.white[c+1] - C.black[c+1]) * C.q[c+1]
Lev(C, v, c) == LET n == (v - C.black[c+1]) * C.p[c+1] IN IF n > Wht(C, c) THEN Wht(C, c) ELSE n

(* The reference picture: three components per pixel, black at zero, no     *)
(* white balance left to do.  use = the colours that take the places of     *)
(* red, green and blue (<<0,1,2>> unless the case exercises the fourth).    *)
Reference(C) ==
  LET ow == CW(C) \div C.f
      oh == CH(C) \div C.f
  IN [w |-> ow, h |-> oh,
      white |-> <<Wht(C, C.use[1]), Wht(C, C.use[2]), Wht(C, C.use[3])>>,
      data |-> [n \in 1..(ow*oh*3) |->
         LET k == (n-1) % 3
             p == (n-1) \div 3
             c == C.use[k+1]
         IN Lev(C, ColourAt(C, C.f, p \div ow, p % ow, c), c)]]

(* --- size of the developed picture --- *)
Swaps(o) == o \in {5, 6, 7, 8}
Abs(n) == IF n < 0 THEN -n ELSE n
Fits(w, h, mw, mh) == mw = 0 \/ mh = 0 \/ (w <= mw /\ h <= mh)
SizeOK(w, h, mw, mh, o, gw, gh) ==          \* w x h: cropped size as stored
  LET uw == IF Swaps(o) THEN h ELSE w        \* upright
      uh == IF Swaps(o) THEN w ELSE h
  IN IF Fits(uw, uh, mw, mh) THEN gw = uw /\ gh = uh
     ELSE /\ gw >= 1 /\ gh >= 1
          /\ gw <= mw /\ gh <= mh
          /\ gw <= uw /\ gh <= uh
          /\ gw = mw \/ gh = mh
          \* proportions to within a pixel
          /\ \/ gw = mw /\ gh*uw <= uh*mw + uw /\ gh*uw + uw >= uh*mw
             \/ gh = mh /\ gw*uh <= uw*mh + uh /\ gw*uh + uh >= uw*mh

(* --- orientation: EXIF values 1..8; where does the pixel (x, y) of the    *)
(* upright picture (w x h) come from in the stored one?                     *)
Source(o, w, h, x, y) ==
  CASE o = 2 -> <<w-1-x, y>>                 \* mirrored left-right
    [] o = 3 -> <<w-1-x, h-1-y>>             \* upside down
    [] o = 4 -> <<x, h-1-y>>                 \* mirrored top-bottom
    [] o = 5 -> <<y, x>>                     \* transposed
    [] o = 6 -> <<y, w-1-x>>                 \* to be turned clockwise
    [] o = 7 -> <<h-1-y, w-1-x>>             \* transverse
    [] o = 8 -> <<h-1-y, x>>                 \* to be turned counter-clockwise
    [] OTHER -> <<x, y>>
=============================================================================
