----------------------------- MODULE MetaTrace -----------------------------
(***************************************************************************)
(* Recorded decodes against the specification of what the file says.  A    *)
(* case is the beginning of a file (everything but the bulk of the sample  *)
(* data), its size, what the library returned for it, and which aspects    *)
(* are to be judged.  twin is another case with the same content laid out  *)
(* differently (0: none), which must decode to the very same image.  Floating point numbers come as the two halves of     *)
(* their bit pattern.                                                      *)
(***************************************************************************)
EXTENDS Meta

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))

(* ------------------------------------------------------ floating point *)
FInf == <<32640, 0>>
FNan == <<32704, 0>>
FSign(f) == f[1] \div 32768
FExp(f) == ((f[1] \div 128) % 256) - 127
FMant(f) == (((f[1] % 128) + 128) * 65536 + f[2]) \div 8      \* 21 bits
(* |a/b| as <<exponent, 21 bit mantissa>>, a, b in 1..2^30 *)
RECURSIVE Grow(_,_,_,_), Fall(_,_)
Grow(q, r, b, e) == IF q >= P2[20] THEN <<e, q>> ELSE LET r2 == 2*r IN Grow(2*q + (IF r2 >= b THEN 1 ELSE 0), IF r2 >= b THEN r2 - b ELSE r2, b, e-1)
Fall(q, e) == IF q < P2[21] THEN <<e, q>> ELSE Fall(q \div 2, e+1)
Norm(a, b) == IF a \div b >= P2[20] THEN Fall(a \div b, 20) ELSE Grow(a \div b, a % b, b, 20)
Close(f, a, b, tol) ==
  IF b = 0 THEN (IF a = 0 THEN f = FNan ELSE f = FInf)
  ELSE IF a = 0 THEN f = <<0, 0>> \/ f = <<32768, 0>>
  ELSE LET n == Norm(Abs(a), Abs(b))
           neg == IF (a < 0) # (b < 0) THEN 1 ELSE 0
           d == FExp(f) - n[1]
       IN /\ FSign(f) = neg
          /\ d \in {-1, 0, 1}
          /\ Abs((IF d = 1 THEN 2 ELSE 1)*FMant(f) - (IF d = -1 THEN 2 ELSE 1)*n[2]) <= tol
NumOK(v, f) == CASE v[1] = "nan" -> f = FNan
                 [] v[1] = "bits" -> f = <<v[2], v[3]>>
                 [] v[1] = "approx" -> Close(f, v[2], v[3], 512)
                 [] OTHER -> Close(f, v[2], v[3], 2)

(* ------------------------------------------------------- masked borders *)
PatDims(n) == CASE n = 0 -> <<0,0>> [] n = 4 -> <<2,2>> [] n = 36 -> <<6,6>> [] n = 16 -> <<2,8>> [] OTHER -> <<12,12>>
Colour(pat, y, x) == LET d == PatDims(Len(pat)) IN IF d[1] = 0 THEN 0 ELSE pat[(y % d[2]) * d[1] + (x % d[1]) + 1]
(* the sums of the masked pixels come per row (modulo 24) and column        *)
(* parity: <<row, parity, sum high, sum low 15 bits, count>>                *)
RECURSIVE Total(_,_,_,_)
Total(rs, i, sel, acc) ==
  IF i > Len(rs) THEN acc
  ELSE Total(rs, i+1, sel, IF rs[i][6] # sel THEN acc
                           ELSE LET lo == acc[2] + rs[i][4] IN <<acc[1] + rs[i][3] + (lo \div 32768), lo % 32768, acc[3] + rs[i][5]>>)
RECURSIVE Dig(_,_,_,_,_)
Dig(q, r, lo, n, k) == IF k < 0 THEN q ELSE LET r2 == 2*r + ((lo \div P2[k]) % 2) IN
                       Dig(2*q + (IF r2 >= n THEN 1 ELSE 0), IF r2 >= n THEN r2 - n ELSE r2, lo, n, k-1)
Average(t) == Dig(t[1] \div t[3], t[1] % t[3], t[2], t[3], 14)
MaskedOK(b, O) ==
  LET rs == TLCEval([i \in 1..Len(O.masked) |-> O.masked[i] \o <<Colour(b[4], O.masked[i][1], O.masked[i][2])>>]) IN
  \A col \in 0..3 : LET t == Total(rs, 1, col, <<0, 0, 0>>) IN t[3] = 0 \/ O.black[col+1] = Average(t)
(* the sums cover the areas the camera has, no more and no less *)
Areas(b, C) == C.areas = <<b[2], b[3]>>

BlackOK(b, C) == IF b[1] = "masked" THEN Areas(b, C) /\ MaskedOK(b, C.obs)
                 ELSE \A i \in 1..4 : i \in b[3] \/ C.obs.black[i] = b[2][i]

Grid(pat, dy, dx) == [n \in 1..144 |-> Colour(pat, dy + ((n-1) \div 12), dx + ((n-1) % 12))]
PatternOK(x, O) ==
  LET d == PatDims(Len(x.pat)) IN
  /\ O.cfadim = d
  /\ O.cfavalid = (Len(x.pat) # 0)
  /\ O.cfa = Grid(x.pat, 0, 0)
  /\ O.croppedcfa = Grid(x.pat, x.crops[1], x.crops[4])

(* ---------------------------------------------------------------- verdict *)
Aspect(a, x, C) ==
  LET O == C.obs IN
  CASE a = "names"   -> O.names = <<x.make, x.model, x.cmake, x.cmodel>>
    [] a = "size"    -> O.size = <<x.w, x.h, x.cpp>>
    [] a = "wb"      -> \A i \in 1..4 : NumOK(x.wb[i], O.wb[i])
    [] a = "white"   -> O.white = x.white
    [] a = "black"   -> BlackOK(x.black, C)
    [] a = "matrix"  -> \A i \in 1..12 : NumOK(x.mat[i], O.mat[i])
    [] a = "pattern" -> PatternOK(x, O)
    [] a = "crops"   -> O.crops = x.crops
    [] a = "orient"  -> O.orient = x.orient
    [] OTHER -> FALSE
Show(a, x) == CASE a = "names" -> <<x.make, x.model, x.cmake, x.cmodel>> [] a = "size" -> <<x.w, x.h, x.cpp>> [] a = "wb" -> x.wb
                [] a = "white" -> x.white [] a = "black" -> x.black [] a = "matrix" -> x.mat [] a = "pattern" -> x.pat
                [] a = "crops" -> x.crops [] OTHER -> x.orient
Verdict(C) ==
  LET x == TLCEval(Expected(C.buf, C.size)) IN
  IF x.res # C.want THEN <<"GENERATOR", x.res>>
  ELSE IF x.res # C.obs.res THEN <<"outcome", "expected", x.res, "got", C.obs.res, C.obs.msg>>
  ELSE IF x.res = "err" THEN (IF "refusal" \in DOMAIN C /\ ~C.refusal THEN <<"refusal does not name the camera", C.obs.msg>> ELSE <<>>)
  ELSE LET wrong == SelectSeq(C.aspects, LAMBDA a : ~Aspect(a, x, C)) IN
       IF wrong = <<>> THEN (IF C.twin = 0 \/ C.obs.digest = Cases[C.twin].obs.digest THEN <<>>
                             ELSE <<"the same content arranged differently decodes differently", Cases[C.twin].id>>)
       ELSE <<wrong[1], "expected", Show(wrong[1], x), "all wrong", wrong>>

VARIABLES c, done, bad
vars == <<c, done, bad>>
Init == c \in 1..Len(Cases) /\ done = FALSE /\ bad = <<>>
Next == ~done /\ done' = TRUE /\ bad' = Verdict(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
Report == [case |-> Cases[c].id, bad |-> bad]
=============================================================================
