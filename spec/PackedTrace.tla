---------------------------- MODULE PackedTrace ----------------------------
(* Uncompressed raw layouts.  Every layout is a map from the pixel (x, y)   *)
(* of a w x h image to the bits of the file that hold it; the decoder must  *)
(* return exactly those bits.  A behaviour reads the image one row per step *)
(* (rows in any order decode independently) and compares it with what the   *)
(* library returned for that row.                                           *)
(*                                                                          *)
(* A case: layout, w, h, off (file position of the raw data), base (file    *)
(* position of data[1]), rows = <<y, samples>> pairs, and for the rotated   *)
(* sensors the crop geometry.                                               *)
EXTENDS Bits, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
N == Len(Cases)

By(C, a) == C.data[a - C.base + 1]          \* byte at file position a
Le(C, a) == By(C, a) + 256 * By(C, a+1)
Be(C, a) == 256 * By(C, a) + By(C, a+1)
Swap2(i) == IF i % 2 = 0 THEN i+1 ELSE i-1   \* bytes swapped in 16-bit words
Swap4(i) == i - (i % 4) + (3 - (i % 4))      \* bytes reversed in 32-bit words

(* 12-bit pixel number n of a packed stream starting at a; sw permutes bytes *)
Be12(C, a, n, sw(_)) ==
  LET j == (3*n) \div 2
      b0 == By(C, a + sw(j))
      b1 == By(C, a + sw(j+1))
  IN IF n % 2 = 0 THEN b0*16 + (b1 \div 16) ELSE (b0 % 16)*256 + b1
Le12(C, a, n) ==
  LET j == (3*n) \div 2
      b0 == By(C, a + j)
      b1 == By(C, a + j + 1)
  IN IF n % 2 = 0 THEN (b1 % 16)*256 + b0 ELSE b1*16 + (b0 \div 16)
(* 10-bit pixel number n, most significant bits first *)
Be10(C, a, n, sw(_)) ==
  LET j == (10*n) \div 8
      s == (10*n) % 8                         \* 0, 2, 4, 6
      b0 == By(C, a + sw(j))
      b1 == By(C, a + sw(j+1))
  IN (b0 % P2[8-s]) * P2[2+s] + (b1 \div P2[6-s])
Id(i) == i

Half(C) == (C.h + 1) \div 2
Field2(C) == IF C.layout = "12be_interlaced"
             THEN ((((Half(C)*C.w*3) \div 2) \div 2048) + 1) * 2048    \* next 2 KB boundary, always past
             ELSE (Half(C)*C.w*3) \div 2

(* data in several strips: how much further on than in one piece a row lies *)
Shift(C, y) == IF C.shift = <<>> THEN 0 ELSE C.shift[y+1]
Pixel(C, x, y) ==
  LET o == C.off + Shift(C, y)
      L == C.layout
      row12 == o + (y*C.w*12) \div 8
      row10 == o + (y*C.w*10) \div 8
      row16 == o + 2*y*C.w
      ctl == o + y*((C.w*12) \div 8 + ((C.w+2) \div 10)) + 16*(x \div 10)   \* 10 pixels + 1 control byte
      fld == o + (IF y % 2 = 0 THEN 0 ELSE Field2(C)) + ((y \div 2)*C.w*12) \div 8
  IN CASE L = "12be"         -> Be12(C, row12, x, Id)
       [] L = "12le"         -> Le12(C, row12, x)
       [] L = "12be_msb16"   -> Be12(C, o, y*C.w + x, Swap2)
       [] L = "12be_msb32"   -> Be12(C, o, y*C.w + x, Swap4)
       [] L = "12be_al16"    -> Be12(C, o + y*2*(((C.w*12) \div 8 + 1) \div 2), x, Id)
       [] L = "10be"         -> Be10(C, row10, x, Id)
       [] L = "10be_lsb16"   -> Be10(C, row10, x, Swap2)
       [] L = "12le_wcontrol" -> Le12(C, ctl, x % 10)
       [] L = "12be_wcontrol" -> Be12(C, ctl, x % 10, Id)
       [] L \in {"12be_interlaced", "12be_interlaced_un"} -> Be12(C, fld, x, Id)
       [] L = "12le_unp"     -> Le(C, row16 + 2*x) % 4096
       [] L = "12be_unp"     -> Be(C, row16 + 2*x) % 4096
       [] L = "12le_left"    -> Le(C, row16 + 2*x) \div 16
       [] L = "12be_left"    -> Be(C, row16 + 2*x) \div 16
       [] L = "14le_unp"     -> Le(C, row16 + 2*x) % 16384
       [] L = "14be_unp"     -> Be(C, row16 + 2*x) % 16384
       [] L = "16le"         -> Le(C, row16 + 2*x)
       [] L = "16be"         -> Be(C, row16 + 2*x)
       [] L = "16le_skip"    -> Le(C, o + 4*y*C.w + 2*x)

(* 8-bit data goes through a 256 entry table, dithered by a generator seeded *)
(* with the first four bytes of the row                                      *)
RECURSIVE Row8(_, _, _, _, _)
Row8(C, y, x, rnd, acc) ==
  IF x = C.w THEN acc
  ELSE Row8(C, y, x+1, NextRnd(rnd), Append(acc, Dither(C.table, By(C, C.off + Shift(C, y) + y*C.w + x), rnd)))

(* Fuji sensors at 45 degrees: the cropped image is rotated into a larger one *)
RotSource(C, or, oc) ==          \* the source pixel of an output pixel, or <<>>
  LET cw == C.cw  ch == C.ch
      row == IF C.alt THEN oc - ((oc - or - (ch + 1 - C.rw) + 1) \div 2) ELSE or + oc - (cw - 1)
      col == IF C.alt THEN oc - or - (ch + 1 - C.rw) ELSE oc - ((or + oc - (cw - 1) + 1) \div 2)
  IN IF row >= 0 /\ row < ch /\ col >= 0 /\ col < cw THEN <<col + C.cx, row + C.cy>> ELSE <<>>

Row(C, y) ==
  CASE C.layout = "8bit" -> LET o == C.off + Shift(C, y) + y*C.w IN Row8(C, y, 0, <<Le(C, o + 2), Le(C, o)>>, <<>>)
    [] C.rot -> [x1 \in 1..C.rw |-> LET s == RotSource(C, y, x1 - 1) IN
                   IF s = <<>> THEN 0 ELSE Pixel(C, s[1], s[2])]
    [] OTHER -> [x1 \in 1..C.w |-> Pixel(C, x1 - 1, y)]

VARIABLES c, k, bad
vars == <<c, k, bad>>

(* an arrangement that the library need not support must be refused if it is not *)
Shape(C) == IF C.optional /\ C.res = "err" THEN <<>>
            ELSE IF C.res # "ok" THEN <<"not decoded", C.res>>
            ELSE IF C.got # C.want THEN <<"geometry", C.got, C.want>>
            ELSE IF C.len # C.want[1]*C.want[2]*C.want[3] THEN <<"length", C.len>> ELSE <<>>
Init == c \in 1..N /\ k = 0 /\ bad = Shape(Cases[c])

Diff(C, y, obs, exp) ==
  IF obs = exp THEN <<>>
  ELSE LET w == {i \in 1..Len(exp) : i > Len(obs) \/ obs[i] # exp[i]}
           i == CHOOSE j \in w : \A m \in w : j <= m
       IN <<"row", y, "column", i-1, "expected", exp[i], "observed", IF i > Len(obs) THEN -1 ELSE obs[i]>>

ReadRow ==
  /\ bad = <<>>
  /\ k < Len(Cases[c].rows)
  /\ LET r == Cases[c].rows[k+1] IN bad' = Diff(Cases[c], r[1], r[2], Row(Cases[c], r[1]))
  /\ k' = k+1
  /\ c' = c
Spec == Init /\ [][ReadRow]_vars
Conforms == bad = <<>>
Report == [case |-> Cases[c].id, unit |-> k, bad |-> bad]
=============================================================================
