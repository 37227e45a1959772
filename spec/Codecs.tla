------------------------------- MODULE Codecs -------------------------------
(***************************************************************************)
(* The entropy-coded raw formats as state machines.                        *)
(*                                                                         *)
(* A decoding of one file is a behaviour: the state is the number of units *)
(* decoded (k), the bit position reached (p) and a tuple of predictor      *)
(* registers (r).  Step(C, T, k, p, r) gives the next <<p, r>> and the     *)
(* sequence of <<output index, value>> pairs the unit defines.             *)
(*   C = the case: format parameters and the file's bytes                  *)
(*   T = tables derived once from C (Tables(C))                            *)
(* Values of already decoded neighbours are read from the observed image,  *)
(* which is sound because every observed sample is checked before it is    *)
(* used.                                                                   *)
(***************************************************************************)
EXTENDS Bits, TLC, FiniteSets, SonyCrypt

Res(p, r, outs) == [p |-> p, r |-> r, outs |-> outs]

-----------------------------------------------------------------------------
(* Lossless JPEG with N interleaved components, predictor 1.               *)
(* C: ncomp, sofw, w (samples per output row), h, x0, stride, prec, pt,    *)
(*    tsel (table per component); unit = one group of N differences        *)
RECURSIVE LjComps(_, _, _, _, _, _)
LjComps(C, T, p, preds, i, acc) ==
  IF i > C.ncomp THEN <<p, acc>>
  ELSE LET d == HDiff(T.ht[C.tsel[i]+1], "jpeg", T.bits, 0, p, C.extra16) IN
       LjComps(C, T, d[1], preds, i+1, Append(acc, U16(preds[i] + d[2])))

LjMap(C, row, x) == row * C.stride + C.x0 + x

LjStep(C, T, k, p, r) ==
  LET mx == k % C.sofw
      row == k \div C.sofw
      base == P2[C.prec - C.pt - 1]
      preds == IF k = 0 THEN [i \in 1..C.ncomp |-> base]
               ELSE IF mx = 0 THEN r.start ELSE r.left
      d == LjComps(C, T, p, preds, 1, <<>>)
      vals == d[2]
      inside == mx * C.ncomp < C.w
  IN Res(d[1],
         [left |-> vals, start |-> IF mx = 0 THEN vals ELSE r.start],
         IF inside THEN [i \in 1..C.ncomp |-> <<LjMap(C, row, mx*C.ncomp + i - 1), vals[i]>>]
         ELSE <<>>)

-----------------------------------------------------------------------------
(* Canon CR2 slices: the JPEG's samples, in raster order, fill vertical    *)
(* slices one after the other.  n = sample number; widths in samples.      *)
RECURSIVE SliceAt(_, _, _, _, _)
SliceAt(ws, h, n, i, x) ==
  IF i = Len(ws) \/ n < ws[i] * h THEN <<(n \div ws[i]), x + (n % ws[i])>>
  ELSE SliceAt(ws, h, n - ws[i]*h, i+1, x + ws[i])

Cr2Index(C, n) ==
  IF Len(C.slices) = 0 THEN n
  ELSE LET rc == SliceAt(C.slices, C.outh, n, 1, 0) IN rc[1] * C.outw + rc[2]

Cr2Step(C, T, k, p, r) ==
  LET x == LjStep(C, T, k, p, r) IN
  IF C.lin = 0
  THEN [x EXCEPT !.outs = [i \in 1..Len(x.outs) |-> <<Cr2Index(C, x.outs[i][1]), x.outs[i][2]>>]]
  ELSE (* linearised: table lookup with dither, seeded with the first sample *)
    LET rnd0 == IF k = 0 THEN <<0, x.outs[1][2]>> ELSE r.rnd
        n == Len(x.outs)
        rn == [i \in 0..n |-> IF i = 0 THEN rnd0 ELSE IF i = 1 THEN NextRnd(rnd0)
                              ELSE IF i = 2 THEN NextRnd(NextRnd(rnd0))
                              ELSE IF i = 3 THEN NextRnd(NextRnd(NextRnd(rnd0)))
                              ELSE NextRnd(NextRnd(NextRnd(NextRnd(rnd0))))]
    IN [x EXCEPT
         !.outs = [i \in 1..n |-> <<Cr2Index(C, x.outs[i][1]), Dither(C.lintab, x.outs[i][2], rn[i-1])>>],
         !.r = [left |-> x.r.left, start |-> x.r.start, rnd |-> rn[n]]]

-----------------------------------------------------------------------------
(* Canon sRAW: subsampled YCbCr lossless JPEG, 4:2:2 (sv=1) or 4:2:0       *)
(* (sv=2).  unit = one MCU: 2*sv luma differences then Cb then Cr.         *)
Rgb(C, y, cb, cr) ==
  LET yy == y - C.yoff
      c1 == 1048576 \div C.wr
      c3 == 1048576 \div C.wb
      b == cb - 16383
      a == cr - 16383
      R == c1 * (yy + a)
      G == C.wg * (yy + ((-778*b - a*2048) \div 4096))
      BB == c3 * (yy + b)
  IN <<Clamp(R \div 256, 16), Clamp(G \div 256, 16), Clamp(BB \div 256, 16)>>

(* where JPEG pixel (row, x) of the ljpeg frame ends up (pixel index) *)
RECURSIVE FieldAt(_, _, _, _)
FieldAt(C, n, i, x) ==   \* 4:2:2: slices of C.fields[i] pixels, filled in pixel order
  IF i = Len(C.fields) \/ n < C.fields[i] * C.outh
  THEN (n \div C.fields[i]) * C.outpw + x + (n % C.fields[i])
  ELSE FieldAt(C, n - C.fields[i]*C.outh, i+1, x + C.fields[i])

SrawPix(C, row, x) ==
  IF Len(C.fields) = 0 THEN row * C.sofw + x
  ELSE IF C.sv = 1 THEN FieldAt(C, row * C.sofw + x, 1, 0)
  ELSE (* 4:2:0: pairs of rows travel together; all fields share one width *)
    LET n == (row \div 2) * C.sofw + x          \* position in the stream of row pairs
        fw == C.fields[1]
        per == fw * (C.outh \div 2)
        f == n \div per
        m == n % per
    IN (2*(m \div fw) + (row % 2)) * C.outpw + f*fw + (m % fw)

RECURSIVE LumaRun(_, _, _, _, _)
LumaRun(C, T, p, acc, left) ==
  IF left = 0 THEN <<p, acc>>
  ELSE LET d == HDiff(T.ht[C.tsel[1]+1], "jpeg", T.bits, 0, p, FALSE)
           prev == acc[Len(acc)]
       IN LumaRun(C, T, d[1], Append(acc, U16(prev + d[2])), left-1)

SrawStep(C, T, k, p, r) ==
  LET mw == C.sofw \div 2
      mx == k % mw
      my == k \div mw
      base == P2[C.prec - C.pt - 1]
      pr == IF k = 0 THEN <<base, base, base>> ELSE IF mx = 0 THEN r.start ELSE r.left
      ly == LumaRun(C, T, p, <<pr[1]>>, 2*C.sv)
      ys == ly[2]
      dcb == HDiff(T.ht[C.tsel[2]+1], "jpeg", T.bits, 0, ly[1], FALSE)
      dcr == HDiff(T.ht[C.tsel[3]+1], "jpeg", T.bits, 0, dcb[1], FALSE)
      cb == U16(pr[2] + dcb[2])
      cr == U16(pr[3] + dcr[2])
      n == 2*C.sv
      out(i, ch) == LET q == SrawPix(C, my*C.sv + (i \div 2), 2*mx + (i % 2))
                    IN <<q*3 + ch - 1, Rgb(C, ys[i+2], cb, cr)[ch]>>
  IN Res(dcr[1],
         [left |-> <<ys[n+1], cb, cr>>,
          start |-> IF mx = 0 THEN <<ys[2], cb, cr>> ELSE r.start],
         [j \in 1..(3*n) |-> out((j-1) \div 3, ((j-1) % 3) + 1)])

-----------------------------------------------------------------------------
(* Hasselblad: pairs of category codes, then the two differences; 32-bit   *)
(* little-endian words read MSB first; predictors reset per row            *)
HassDiff(T, C, p, s) ==
  IF s = 16 THEN <<p+16, -32768>>
  ELSE <<p + s, Extend(Field("msb32", C.data, C.off, p, s), s)>>

HassStep(C, T, k, p, r) ==
  LET half == C.w \div 2
      col == k % half
      row == k \div half
      p1 == IF col = 0 THEN 32768 ELSE r[1]
      p2 == IF col = 0 THEN 32768 ELSE r[2]
      s1 == HSym(T.ht[C.tsel[1]+1], Field("msb32", C.data, C.off, p, 16))
      s2 == HSym(T.ht[C.tsel[1]+1], Field("msb32", C.data, C.off, p + s1[1], 16))
      d1 == HassDiff(T, C, p + s1[1] + s2[1], s1[2])
      d2 == HassDiff(T, C, d1[1], s2[2])
      v1 == U16(p1 + d1[2])
      v2 == U16(p2 + d2[2])
  IN Res(d2[1], <<v1, v2>>, <<<<row*C.w + 2*col, v1>>, <<row*C.w + 2*col + 1, v2>>>>)

-----------------------------------------------------------------------------
(* Leaf MOS: strips of 8 rows, each an independent 2-component JPEG scan;  *)
(* "interlaced" backs store odd rows from the bottom up                    *)
LeafRow(C, row) == IF ~C.interlaced THEN row
                   ELSE IF row % 2 = 1 THEN C.h - 1 - (row \div 2) ELSE row \div 2

LeafStep(C, T, k, p0, r) ==
  LET half == C.w \div 2
      col == k % half
      row == k \div half
      fresh == col = 0 /\ row % 8 = 0
      p == IF fresh THEN 0 ELSE p0
      bits == T.strips[(row \div 8) + 1]
      base == P2[C.prec - C.pt - 1]
      pr == IF fresh THEN <<base, base>> ELSE IF col = 0 THEN r.start ELSE r.left
      d1 == HDiff(T.ht[C.tsel[1]+1], "jpeg", bits, 0, p, TRUE)
      d2 == HDiff(T.ht[C.tsel[2]+1], "jpeg", bits, 0, d1[1], TRUE)
      v == <<U16(pr[1] + d1[2]), U16(pr[2] + d2[2])>>
      o == LeafRow(C, row) * C.w + 2*col
  IN Res(d2[1], [left |-> v, start |-> IF col = 0 THEN v ELSE r.start],
         <<<<o, v[1]>>, <<o+1, v[2]>>>>)

-----------------------------------------------------------------------------
(* Nikon NEF: Huffman differences against the pixel two columns back, or   *)
(* two rows up at the start of a row; the result indexes a tone curve.     *)
(* After row `split' a second tree is used whose values carry a shift.     *)
NefDiff(C, T, p, after) ==
  IF ~after THEN HDiff(T.ht[1], "msb", C.data, C.off, p, FALSE)
  ELSE LET sym == HSym(T.ht[2], Field("msb", C.data, C.off, p, 16))
           q == p + sym[1]
           len == sym[2] % 16
           shl == sym[2] \div 16
           raw == Field("msb", C.data, C.off, q, len - shl)
           d0 == ((raw*2 + 1) * P2[shl]) \div 2
           d == IF len = 0 THEN 0
                ELSE IF d0 < P2[len-1] THEN d0 - (P2[len] - (IF shl = 0 THEN 1 ELSE 0)) ELSE d0
       IN <<q + len - shl, d>>

NefStep(C, T, k, p, r) ==
  LET half == C.w \div 2
      col == k % half
      row == k \div half
      after == C.split > 0 /\ row >= C.split
      par == (row % 2) + 1
      d1 == NefDiff(C, T, p, after)
      d2 == NefDiff(C, T, d1[1], after)
      v1 == (IF col = 0 THEN r.up1[par] ELSE r.l1) + d1[2]
      v2 == (IF col = 0 THEN r.up2[par] ELSE r.l2) + d2[2]
      rn1 == NextRnd(r.rnd)
      o == row*C.w + 2*col
  IN Res(d2[1],
         [up1 |-> IF col = 0 THEN [r.up1 EXCEPT ![par] = v1] ELSE r.up1,
          up2 |-> IF col = 0 THEN [r.up2 EXCEPT ![par] = v2] ELSE r.up2,
          l1 |-> v1, l2 |-> v2, rnd |-> NextRnd(rn1)],
         <<<<o, Dither(T.curve, Clamp(v1, 15), r.rnd)>>,
           <<o+1, Dither(T.curve, Clamp(v2, 15), rn1)>>>>)

(* the tone curve a NEF describes: identity (lossless), an explicit table, *)
(* or csize knots spread evenly and linearly interpolated                  *)
NefCurve(C) ==
  LET max == IF C.bps = 14 THEN 16384 ELSE 4096 IN
  CASE C.curvekind = "identity" -> [i \in 1..max |-> i-1]
    [] C.curvekind = "table"    -> C.knots
    [] C.curvekind = "interp"   ->
         LET step == max \div (Len(C.knots) - 1) IN
         [i1 \in 1..max |->
            LET i == i1 - 1
                a == i \div step
                f == i % step
                \* beyond the last knot the identity curve continues
                hi == IF a+2 <= Len(C.knots) THEN C.knots[a+2] ELSE (a+1)*step
                lo == IF a+1 <= Len(C.knots) THEN C.knots[a+1] ELSE a*step
            IN (lo*(step - f) + hi*f) \div step]

-----------------------------------------------------------------------------
(* Pentax PEF: like NEF without curve *)
PefStep(C, T, k, p, r) ==
  LET half == C.w \div 2
      col == k % half
      row == k \div half
      par == (row % 2) + 1
      d1 == HDiff(T.ht[1], "msb", C.data, C.off, p, FALSE)
      d2 == HDiff(T.ht[1], "msb", C.data, C.off, d1[1], FALSE)
      v1 == (IF col = 0 THEN r.up1[par] ELSE r.l1) + d1[2]
      v2 == (IF col = 0 THEN r.up2[par] ELSE r.l2) + d2[2]
      o == row*C.w + 2*col
  IN Res(d2[1],
         [up1 |-> IF col = 0 THEN [r.up1 EXCEPT ![par] = v1] ELSE r.up1,
          up2 |-> IF col = 0 THEN [r.up2 EXCEPT ![par] = v2] ELSE r.up2,
          l1 |-> v1, l2 |-> v2],
         <<<<o, U16(v1)>>, <<o+1, U16(v2)>>>>)

(* Huffman table stored in a Pentax maker note: entry i has a left-justified
   12-bit code and a length; symbol order is the order of the codes *)
PefOrder(codes, lens) ==
  LET n == Len(codes)
      v == [i \in 1..n |-> codes[i] \div P2[12 - lens[i]]]
      \* values in increasing right-justified code; of equal codes the later entry first
      before(i, j) == v[i] < v[j] \/ (v[i] = v[j] /\ i > j)
      rank(i) == Cardinality({j \in 1..n : before(j, i)}) + 1
  IN [q \in 1..n |-> (CHOOSE i \in 1..n : rank(i) = q) - 1]

-----------------------------------------------------------------------------
(* Samsung SRW 1: rows with their own offsets, blocks of 16 pixels         *)
(* the stored red/blue positions are swapped: stored (r,c) -> final index  *)
SrwPos(C, row, col) ==
  IF row % 2 = 0 /\ col % 2 = 1 THEN (row+1)*C.w + col - 1
  ELSE IF row % 2 = 1 /\ col % 2 = 0 THEN (row-1)*C.w + col + 1
  ELSE row*C.w + col
SrwAt(C, row, col) == C.obs[SrwPos(C, row, col) + 1]

RECURSIVE Srw1Lens(_, _, _, _, _)
Srw1Lens(C, ops, p, len, i) ==
  IF i > 4 THEN <<p, len>>
  ELSE CASE ops[i] = 3 -> Srw1Lens(C, ops, p+4, [len EXCEPT ![i] = Field("msb32", C.data, C.cur, p, 4)], i+1)
         [] ops[i] = 2 -> Srw1Lens(C, ops, p, [len EXCEPT ![i] = @ - 1], i+1)
         [] ops[i] = 1 -> Srw1Lens(C, ops, p, [len EXCEPT ![i] = @ + 1], i+1)
         [] OTHER      -> Srw1Lens(C, ops, p, len, i+1)

Srw1Step(C0, T, k, p0, r) ==
  LET nb == (C0.w + 15) \div 16
      row == k \div nb
      col == 16 * (k % nb)
      C == [data |-> C0.data, cur |-> C0.rowoff[row+1], w |-> C0.w, obs |-> C0.obs]
      fresh == col = 0
      p == IF fresh THEN 0 ELSE p0
      len0 == IF fresh THEN (IF row < 2 THEN <<7,7,7,7>> ELSE <<4,4,4,4>>) ELSE r
      f(q, n) == Field("msb32", C.data, C.cur, q, n)
      dir == f(p, 1) = 1
      ops == <<f(p+1,2), f(p+3,2), f(p+5,2), f(p+7,2)>>
      L == Srw1Lens(C, ops, p+9, len0, 1)
      len == L[2]
      q0 == L[1]
      \* the 16 adjustments: even pixels 0,2..14 (lengths len[1], len[2]) then odd
      lenAt(j) == len[(j \div 4) + 1]                \* j = 0..15 in stream order
      posAt(j) == q0 + (CASE j <= 4  -> j*len[1]
                          [] j <= 8  -> 4*len[1] + (j-4)*len[2]
                          [] j <= 12 -> 4*len[1] + 4*len[2] + (j-8)*len[3]
                          [] OTHER   -> 4*len[1] + 4*len[2] + 4*len[3] + (j-12)*len[4])
      adj(j) == SExt(f(posAt(j), lenAt(j)), lenAt(j))
      cOf(j) == IF j < 8 THEN 2*j ELSE 2*(j-8) + 1
      pred(j) ==
        LET c == cOf(j) IN
        IF dir
        THEN IF j < 8
             THEN IF row = 0 THEN 0 ELSE SrwAt(C, row-1, col+c)
             ELSE IF row = 0 THEN 0 ELSE IF row = 1 THEN SrwAt(C, 0, col+c)
                  ELSE SrwAt(C, row-2, col+c)
        ELSE IF col = 0 THEN 128
             ELSE IF j < 8 THEN SrwAt(C, row, col-2) ELSE SrwAt(C, row, col-1)
      js == SelectSeq(<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>, LAMBDA j : col + cOf(j) < C.w)
  IN Res(posAt(16), len,
         [i \in 1..Len(js) |-> <<SrwPos(C, row, col + cOf(js[i])), U16(pred(js[i]) + adj(js[i]))>>])

-----------------------------------------------------------------------------
(* Samsung SRW 2: fixed prefix code, predictors as in NEF                  *)
Srw2Codes == <<<<3,4>>, <<3,7>>, <<2,6>>, <<2,5>>, <<4,3>>, <<6,0>>, <<7,9>>,
               <<8,10>>, <<9,11>>, <<10,12>>, <<10,13>>, <<5,1>>, <<4,8>>, <<4,2>>>>
Srw2Start == [i \in 1..15 |-> SumTo([j \in 1..14 |-> P2[10 - Srw2Codes[j][1]]], i-1)]
Srw2Step(C, T, k, p, r) ==
  LET col == k % C.w
      row == k \div C.w
      peek == Field("msb", C.data, C.off, p, 10)
      e == Srw2Codes[CHOOSE i \in 1..14 : Srw2Start[i] <= peek /\ peek < Srw2Start[i+1]]
      d == Extend(Field("msb", C.data, C.off, p + e[1], e[2]), e[2])
      a == (row % 2)*2 + (col % 2) + 1
      v == (IF col < 2 THEN r.v[a] ELSE r.h[(col % 2) + 1]) + d
  IN Res(p + e[1] + e[2],
         [v |-> IF col < 2 THEN [r.v EXCEPT ![a] = v] ELSE r.v,
          h |-> [r.h EXCEPT ![(col % 2) + 1] = v]],
         <<<<k, U16(v)>>>>)

-----------------------------------------------------------------------------
(* Samsung SRW 3 (NX1): 16-pixel blocks, reference-line prediction         *)
(* C: rowoff absent; rows are byte-aligned to 16 inside the stream         *)
(* registers: base = byte offset of the current row inside the stream      *)
Srw3Motion == <<-4,-2,-2,0,0,2,4>>
Srw3Avg == <<0,0,1,0,1,0,0>>

RECURSIVE Srw3Bits(_, _, _, _, _, _, _)
Srw3Bits(f(_,_), row, flags, p, mode, acc, i) ==
  IF i > 3 THEN <<p, mode, acc>>
  ELSE LET cn == (IF row % 2 = 1 THEN i \div 2 ELSE ((i \div 2) + 2) % 3) + 1
           fl == flags[i+1]
           v == CASE fl = 0 -> mode[cn][1] [] fl = 1 -> mode[cn][1] + 1
                  [] fl = 2 -> mode[cn][1] - 1 [] fl = 3 -> f(p, 4)
           q == IF fl = 3 THEN p+4 ELSE p
       IN Srw3Bits(f, row, flags, q, [mode EXCEPT ![cn] = <<mode[cn][2], v>>], Append(acc, v), i+1)

Srw3Step(C, T, k, p0, r) ==
  LET nb == C.w \div 16
      row == k \div nb
      col == 16 * (k % nb)
      fresh == col = 0
      at(y, x) == C.obs[y*C.w + x + 1]
      \* byte offset of this row: previous offset + bytes used, rounded up to 16
      used == (p0 + 7) \div 8
      start == IF ~fresh THEN r.base
               ELSE IF row = 0 THEN 16
               ELSE ((r.base + used + 15) \div 16) * 16
      p1 == IF fresh THEN 0 ELSE p0
      f(q, n) == Field("msb32", C.data, C.off + start, q, n)
      ini == IF row < 2 THEN 7 ELSE 4
      mode1 == IF fresh THEN <<<<ini,ini>>, <<ini,ini>>, <<ini,ini>>>> ELSE r.mode
      motion1 == IF fresh THEN 7 ELSE r.motion
      scale1 == IF fresh THEN 0 ELSE r.scale
      qp == (C.opt \div 4) % 2 = 0 /\ col % 64 = 0
      si == f(p1, 2)
      scale == IF qp THEN (IF si < 3 THEN scale1 + <<0,-2,2>>[si+1] ELSE f(p1+2, 12)) ELSE 0
      p2 == IF qp THEN (IF si < 3 THEN p1+2 ELSE p1+14) ELSE p1
      mv == (C.opt \div 2) % 2 = 1
      motion == IF mv THEN (IF f(p2,1) = 1 THEN 3 ELSE 7)
                ELSE IF f(p2,1) = 0 THEN f(p2+1,3) ELSE motion1
      p3 == IF mv THEN p2+1 ELSE IF f(p2,1) = 0 THEN p2+4 ELSE p2+1
      \* reference value of pixel i of the block
      ref(i) ==
        IF motion = 7 THEN (IF col = 0 THEN C.init ELSE at(row, col - 2 + (i % 2)))
        ELSE LET so == Srw3Motion[motion+1]
                 y == IF (row + i) % 2 = 1 THEN row-2 ELSE row-1
                 x == (IF (row + i) % 2 = 1 THEN col + i
                       ELSE IF i % 2 = 1 THEN col + i - 1 ELSE col + i + 1) + so
                 a == C.obs[y*C.w + x + 1]
             IN IF Srw3Avg[motion+1] = 1 THEN U16(a + C.obs[y*C.w + x + 3] + 1) \div 2 ELSE a
      skip == C.opt % 2 = 1
      coded == skip \/ f(p3, 1) = 0
      p4 == IF skip THEN p3 ELSE p3 + 1
      flags == <<f(p4,2), f(p4+2,2), f(p4+4,2), f(p4+6,2)>>
      DB == IF coded THEN Srw3Bits(f, row, flags, p4+8, mode1, <<>>, 0) ELSE <<p4, mode1, <<0,0,0,0>>>>
      db == DB[3]
      q0 == DB[1]
      posAt(i) == q0 + (CASE i <= 4 -> i*db[1] [] i <= 8 -> 4*db[1] + (i-4)*db[2]
                          [] i <= 12 -> 4*db[1] + 4*db[2] + (i-8)*db[3]
                          [] OTHER -> 4*db[1] + 4*db[2] + 4*db[3] + (i-12)*db[4])
      diff(i) == LET l == db[(i \div 4) + 1] IN SExt(f(posAt(i), l), l) * (scale*2 + 1) + scale
      slot(i) == IF row % 2 = 1 THEN 2*(i % 8) + 1 - (i \div 8) ELSE 2*(i % 8) + (i \div 8)
  IN Res(posAt(16),
         [base |-> start, mode |-> DB[2], motion |-> motion, scale |-> scale],
         [j \in 1..16 |-> <<row*C.w + col + slot(j-1),
                            Clamp(ref(slot(j-1)) + diff(j-1), C.depth)>>])

-----------------------------------------------------------------------------
(* Sony SRF: 16 bit big-endian samples below the key stream.  The key is    *)
(* in an encrypted header, whose own key lies where a byte of the file says *)
SrfStart(C) ==
  LET at == C.keyoff + 4 * B(C.data, C.keyoff)
      k1 == <<BE16(C.data, at), BE16(C.data, at + 2)>>
      head == SonyPlain(C.data, C.headoff, 40, k1)
  IN SonyStart(<<LE16(head, 24), LE16(head, 22)>>)
SrfStep(C, T, k, p, pad) ==
  LET b == WBytes(WXor(<<LE16(C.data, C.off + 4*k + 2), LE16(C.data, C.off + 4*k)>>, SonyKeyWord(pad, k)))
      outs == <<<<2*k, b[1]*256 + b[2]>>, <<2*k + 1, b[3]*256 + b[4]>>>>
  IN Res(p + 32, SonyNext(pad, k), SubSeq(outs, 1, Min(2, C.w*C.h - 2*k)))
-----------------------------------------------------------------------------
(* Sony ARW 1: columns from the right, even rows then odd rows; one sum    *)
Arw1Step(C, T, k, p, r) ==
  LET x == C.w - 1 - (k \div C.h)
      j == k % C.h
      half == C.h \div 2
      row == IF j < half THEN 2*j ELSE 2*(j - half) + 1
      f(q, n) == Field("msb", C.data, C.off, q, n)
      two == f(p, 2)
      peek == f(p+2, 13)
      zeros == CHOOSE z \in 0..13 : /\ peek < P2[13 - z] /\ (z = 13 \/ peek >= P2[12 - z])
      len == CASE two = 0 -> 4 + zeros
               [] two = 1 -> IF f(p+2, 1) = 1 THEN 0 ELSE 3
               [] two = 2 -> 2
               [] two = 3 -> 1
      q == CASE two = 0 -> p + 2 + Min(13, zeros+1)
             [] two = 1 -> p + 3
             [] OTHER -> p + 2
      s == r + Extend(f(q, len), len)
  IN Res(q + len, s, <<<<row*C.w + x, U16(s)>>>>)

(* Sony ARW 2: per row, groups of 32 pixels = two interleaved runs of 16   *)
RECURSIVE Arw2Run(_, _, _, _, _, _, _, _, _, _)
Arw2Run(C, T, f(_,_), p, hdr, i, rnd, o, acc, dummy) ==
  IF i = 16 THEN <<p, rnd, acc>>
  ELSE LET own == i = hdr.imax \/ i = hdr.imin
           v == IF i = hdr.imax THEN hdr.max ELSE IF i = hdr.imin THEN hdr.min
                ELSE Min(2047, f(p, 7) * P2[hdr.sh] + hdr.min)
       IN Arw2Run(C, T, f, IF own THEN p ELSE p+7, hdr, i+1, NextRnd(rnd), o,
                  Append(acc, <<o + 2*i, Dither(T.curve, 2*v, rnd)>>), dummy)

Arw2Step(C, T, k, p0, r) ==
  LET runs == C.w \div 16
      row == k \div runs
      m == k % runs
      f(q, n) == Field("lsb", C.data, C.off + row*C.w, q, n)
      p == IF m = 0 THEN 0 ELSE p0
      rnd == IF m = 0 THEN <<f(16, 8), f(0, 16)>> ELSE r
      mx == f(p, 11)
      mn == f(p+11, 11)
      delta == mx - mn
      sh == IF delta < 128 THEN 0 ELSE IF delta < 256 THEN 1 ELSE IF delta < 512 THEN 2
            ELSE IF delta < 1024 THEN 3 ELSE 4
      hdr == [max |-> mx, min |-> mn, sh |-> sh, imax |-> f(p+22, 4), imin |-> f(p+26, 4)]
      R == Arw2Run(C, T, f, p+30, hdr, 0, rnd, row*C.w + 32*(m \div 2) + (m % 2), <<>>, 0)
  IN Res(R[1], R[2], R[3])

(* Sony's curve: slopes 1,2,4,8,16 between the four knots and 4095 *)
SonyCurve(knots) ==
  LET kn == <<0, knots[1], knots[2], knots[3], knots[4], 4095>>
      contrib(i, s) == P2[s-1] * Max(0, Min(i, kn[s+1]) - kn[s])
  IN [i1 \in 1..4096 |-> LET i == i1 - 1 IN
        contrib(i,1) + contrib(i,2) + contrib(i,3) + contrib(i,4) + contrib(i,5)]

-----------------------------------------------------------------------------
(* Olympus ORF: adaptive Golomb-like code, two interleaved predictors      *)
RECURSIVE OrfNbits(_, _, _)
OrfNbits(a0, i, n) == IF n + i > 30 \/ (a0 \div P2[n+i]) % 65536 = 0 THEN n ELSE OrfNbits(a0, i, n+1)

OrfStep(C, T, k, p, r) ==
  LET col == k % C.w
      row == k \div C.w
      s == (col % 2) + 1
      a == IF col < 2 THEN <<0,0,0>> ELSE r.a[s]
      i == IF a[3] < 3 THEN 2 ELSE 0
      nbits == Min(OrfNbits(a[1], i, 2+i), 16)
      f(q, n) == Field("msb", C.data, C.off, q, n)
      sign == f(p, 1)
      low == f(p+1, 2)
      win == f(p+3, 12)
      hz == IF win = 0 THEN 12 ELSE CHOOSE z \in 0..11 : win >= P2[11-z] /\ (z = 0 \/ win < P2[12-z])
      high == IF hz = 12 THEN f(p+15, 16-nbits) \div 2 ELSE hz
      q == IF hz = 12 THEN p + 15 + 16 - nbits ELSE p + hz + 4
      a0 == high * P2[nbits] + f(q, nbits)
      diff == (IF sign = 1 THEN 0 - a0 - 1 ELSE a0) + a[2]
      na == <<a0, (diff*3 + a[2]) \div 32, IF a0 > 16 THEN 0 ELSE a[3] + 1>>
      up == C.obs[(row-2)*C.w + col + 1]
      left == r.left[s]
      nw == IF row >= 2 /\ col < 2 THEN up ELSE r.nw[s]
      ln == left - nw
      un == up - nw
      \* signs differ and neither is zero
      opposite == (ln < 0 /\ un > 0) \/ (ln > 0 /\ un < 0)
      pred == IF row < 2 /\ col < 2 THEN 0
              ELSE IF row < 2 THEN left
              ELSE IF col < 2 THEN up
              ELSE IF opposite
                   THEN IF Abs(ln) > 32 \/ Abs(un) > 32 THEN left + un ELSE (left + up) \div 2
                   ELSE IF Abs(ln) > Abs(un) THEN left ELSE up
      v == pred + diff*4 + low
  IN Res(q + nbits,
         [a |-> [r.a EXCEPT ![s] = na], left |-> [r.left EXCEPT ![s] = v],
          nw |-> IF row < 2 THEN r.nw ELSE [r.nw EXCEPT ![s] = up]],
         <<<<k, U16(v)>>>>)

-----------------------------------------------------------------------------
(* Panasonic RW2: 14 pixels in 128 bits; the stream runs backwards through *)
(* 16 KB blocks (with the two halves exchanged in the split layout)        *)
PanaField(C, p, n) ==
  LET blk == (p + n - 1) \div 131072
      rem == (blk+1)*131072 - p - n
      by0 == rem \div 8
      \* exclusive or with 0x3ff0: the low nibble stays, the other bits flip
      by1 == (1023 - (by0 \div 16)) * 16 + (by0 % 16)
      by == IF C.split THEN (by1 + 16384 - 8200) % 16384 ELSE by1
      w == LE16(C.data, C.off + blk*16384 + by)
  IN (w \div P2[rem % 8]) % P2[n]

RECURSIVE PanaPix(_, _, _, _, _, _, _)
PanaPix(C, p, i, sh, pred, nonz, acc) ==
  IF i = 14 THEN <<p, sh, acc>>
  ELSE
  LET sh1 == IF i % 3 = 2 THEN <<0,1,2,4>>[PanaField(C, p, 2) + 1] ELSE sh
      p1 == IF i % 3 = 2 THEN p+2 ELSE p
      e == (i % 2) + 1
      j == PanaField(C, p1, 8)
      a == pred[e] - 128*P2[sh1]
      b == IF a < 0 \/ sh1 = 4 THEN a % P2[sh1] ELSE a
      first == j # 0 \/ i > 11
      v == IF nonz[e] # 0 THEN (IF j # 0 THEN b + j*P2[sh1] ELSE pred[e])
           ELSE IF first THEN j*16 + PanaField(C, p1+8, 4) ELSE pred[e]
      p2 == IF nonz[e] = 0 /\ first THEN p1+12 ELSE p1+8
  IN PanaPix(C, p2, i+1, sh1, [pred EXCEPT ![e] = v],
             IF nonz[e] = 0 THEN [nonz EXCEPT ![e] = j] ELSE nonz, Append(acc, U16(v)))

PanaStep(C, T, k, p, r) ==
  LET R == PanaPix(C, k*128, 0, IF (k % (C.w \div 14)) = 0 /\ ((k \div (C.w \div 14)) % 5) = 0 THEN 0 ELSE r,
                   <<0,0>>, <<0,0>>, <<>>)
  IN Res(R[1], R[2], [i \in 1..14 |-> <<14*k + i - 1, R[3][i]>>])

-----------------------------------------------------------------------------
(* Canon CRW: blocks of 64 run/size coded differences; optional two low    *)
(* bits stored separately at the start of the file                         *)
CrwSym(t, peek) == LET l == HLen(t, peek, 1) IN IF l = 0 THEN <<0,0>> ELSE HSym(t, peek)

RECURSIVE CrwBlock(_, _, _, _, _)
CrwBlock(T, C, p, i, diffs) ==
  IF i >= 64 THEN <<p, diffs>>
  ELSE
  LET sym == CrwSym(T.ht[IF i = 0 THEN 1 ELSE 2], Field("jpeg", T.bits, 0, p, 16))
      q == p + sym[1]
      leaf == sym[2]
      len == leaf % 16
      j == i + (leaf \div 16)
  IN IF leaf = 0 /\ i # 0 THEN <<q, diffs>>
     ELSE IF leaf = 255 THEN CrwBlock(T, C, q, i+1, diffs)
     ELSE IF len = 0 THEN CrwBlock(T, C, q, j+1, diffs)
     ELSE LET d == Extend(Field("jpeg", T.bits, 0, q, len), len) IN
          CrwBlock(T, C, q+len, j+1, IF j < 64 THEN [diffs EXCEPT ![j+1] = d] ELSE diffs)

RECURSIVE CrwEmit(_, _, _, _, _, _)
CrwEmit(C, k, i, diffs, base, acc) ==
  IF i = 64 THEN <<base, acc>>
  ELSE
  LET n == k*64 + i
      b0 == IF n % C.w = 0 THEN <<512, 512>> ELSE base
      e == (i % 2) + 1
      v == b0[e] + diffs[i+1]
      low == (B(C.data, 26 + (n \div 4)) \div P2[2*(n % 4)]) % 4
      x == IF C.lowbits THEN U16(U16(v)*4) + low ELSE U16(v)
      y == IF C.lowbits /\ C.w = 2672 /\ x < 512 THEN x+2 ELSE x
  IN CrwEmit(C, k, i+1, diffs, [b0 EXCEPT ![e] = v], Append(acc, <<n, y>>))

CrwStep(C, T, k, p, r) ==
  LET bl == CrwBlock(T, C, p, 0, [i \in 1..64 |-> 0])
      d0 == bl[2][1] + r.carry
      em == CrwEmit(C, k, 0, [bl[2] EXCEPT ![1] = d0], r.base, <<>>)
  IN Res(bl[1], [carry |-> d0, base |-> em[1]], em[2])

-----------------------------------------------------------------------------
(* Kodak DCR (65000): segments of up to 256 pixels; nibble lengths, then   *)
(* bits in big-endian 16-bit words read LSB first, padded to 32 bits       *)
DcrBits(buf, base, p, n) ==
  IF n = 0 THEN 0 ELSE
  LET w0 == BE16(buf, base + 2*(p \div 16))
      w1 == BE16(buf, base + 2*(p \div 16) + 2)
      s == p % 16
      lo == w0 \div P2[s]
      have == 16 - s
  IN IF n <= have THEN lo % P2[n] ELSE lo + (w1 % P2[n - have]) * P2[have]

DcrStep(C, T, k, p, r) ==
  LET row == k \div C.w
      col == k % C.w
      i == col % 256
      size == Min(256, C.w - (col - i))
      seg == IF i = 0 THEN r.next ELSE r.seg        \* byte offset of the segment
      len == LET b == B(C.data, C.off + seg + (i \div 2)) IN IF i % 2 = 0 THEN b % 16 ELSE b \div 16
      p1 == IF i = 0 THEN 0 ELSE p
      body == C.off + seg + ((size + 1) \div 2)
      d == Extend(DcrBits(C.data, body, p1, len), len)
      pr == IF i = 0 THEN <<0,0>> ELSE r.pred
      e == (i % 2) + 1
      v == pr[e] + d
      total == p1 + len
      head == IF size % 8 = 4 THEN 16 ELSE 0
      bytes == (head \div 8) + 4 * (IF total <= head THEN 0 ELSE (total - head + 31) \div 32)
  IN Res(total,
         [seg |-> seg, next |-> IF i = size-1 THEN seg + ((size+1) \div 2) + bytes ELSE r.next,
          pred |-> [pr EXCEPT ![e] = v], rnd |-> NextRnd(r.rnd)],
         <<<<k, Dither(C.curve, U16(v), r.rnd)>>>>)

-----------------------------------------------------------------------------
(* Phase One IIQ: rows with their own offsets, groups of 8 pixels          *)
IiqLens == <<8,7,6,9,11,10,5,12,14,13>>
IiqLen(f(_,_), p, old) ==    \* <<new position, length>>
  LET j == CHOOSE z \in 0..5 : /\ \A y \in 0..(z-1) : f(p+y, 1) = 0
                               /\ (z = 5 \/ f(p+z, 1) = 1)
      q == IF j = 5 THEN p+5 ELSE p+j+1
  IN IF j = 0 THEN <<q, old>> ELSE <<q+1, IiqLens[(j-1)*2 + f(q,1) + 1]>>

IiqStep(C, T, k, p0, r) ==
  LET row == k \div C.w
      col == k % C.w
      f(q, n) == Field("msb32", C.data, C.rowoff[row+1], q, n)
      p == IF col = 0 THEN 0 ELSE p0
      pr == IF col = 0 THEN <<0,0>> ELSE r.pred
      ln == IF col = 0 THEN <<0,0>> ELSE r.len
      tail == col >= C.w - (C.w % 8)
      a == IiqLen(f, p, ln[1])
      b == IiqLen(f, a[1], ln[2])
      len == IF tail THEN <<14,14>> ELSE IF col % 8 = 0 THEN <<a[2], b[2]>> ELSE ln
      q == IF ~tail /\ col % 8 = 0 THEN b[1] ELSE p
      e == (col % 2) + 1
      n == len[e]
      v == IF n = 14 THEN f(q, 16) ELSE pr[e] + f(q, n) + 1 - P2[n-1]
  IN Res(IF n = 14 THEN q+16 ELSE q+n, [pred |-> [pr EXCEPT ![e] = v], len |-> len],
         <<<<k, U16(v)>>>>)


-----------------------------------------------------------------------------
(* Nikon sNEF: 12-bit YCbCr with one chroma pair per two pixels, through    *)
(* the sRGB tone curve and with the white balance taken out again.          *)
(* The colour transform is real-valued: the specification brackets it.     *)
Trunc(v, s) == IF v >= 0 THEN v \div s ELSE 0 - ((0 - v) \div s)
SnefBand(T, v, rnd) ==   \* v: value * 100000
  LET lo == Clamp(Trunc(v - 6000, 100000), 12)
      hi == Clamp(Trunc(v + 6000, 100000), 12)
  IN <<Max(0, Dither(T.curve, lo, rnd) - 3), Min(65535, Dither(T.curve, hi, rnd) + 3)>>
SnefWb(b, inv) == <<Clamp((inv * b[1] + 512) \div 1024, 15), Clamp((inv * b[2] + 512) \div 1024, 15)>>

SnefStep(C, T, k, p, r) ==
  LET half == C.w \div 2
      row == k \div half
      col == k % half
      a == C.off + 6*k
      g(i) == B(C.data, a + i)
      r0 == IF col = 0 THEN <<BE16(C.data, a), BE16(C.data, a+2)>> ELSE r
      y1 == g(0) + 256 * (g(1) % 16)
      y2 == (g(1) \div 16) + 16 * g(2)
      cb == g(3) + 256 * (g(4) % 16) - 2048
      cr == (g(4) \div 16) + 16 * g(5) - 2048
      R(y) == y*100000 + 137071*cr
      G(y) == y*100000 - 33763*cb - 69800*cr
      Bl(y) == y*100000 + 173245*cb
      n1 == NextRnd(r0)  n2 == NextRnd(n1)  n3 == NextRnd(n2)  n4 == NextRnd(n3)  n5 == NextRnd(n4)
      q == <<SnefWb(SnefBand(T, R(y1), r0), C.invr), SnefBand(T, G(y1), n1), SnefWb(SnefBand(T, Bl(y1), n2), C.invb),
             SnefWb(SnefBand(T, R(y2), n3), C.invr), SnefBand(T, G(y2), n4), SnefWb(SnefBand(T, Bl(y2), n5), C.invb)>>
  IN Res(p + 48, NextRnd(n5), [i \in 1..6 |-> <<6*k + i - 1, q[i][1], q[i][2]>>])

=============================================================================
