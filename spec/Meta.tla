-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* What a decoded image has to say about itself, as a function of the      *)
(* bytes of the file and the camera database: which format it is, which     *)
(* camera, size, white balance, levels, matrix, pattern, crop, orientation. *)
(***************************************************************************)
EXTENDS Tiff, NikonKeys, SonyCrypt, Bitwise, Json, IOUtils

DB == TLCEval(JsonDeserialize(IOEnv.CAMERAS))

(* ------------------------------------------------------ camera database *)
Attr(t, m, k, d) == IF k \in DOMAIN m THEN m[k] ELSE IF k \in DOMAIN t THEN t[k] ELSE d
Camera(t, m, name) ==
  LET w == Attr(t, m, "whitepoint", 0)  b == Attr(t, m, "blackpoint", 0)
      mt == Attr(t, m, "color_matrix", <<>>)
  IN [make |-> t.make, model |-> name[1], cmake |-> t.cmake, cmodel |-> name[2],
      white |-> <<w, w, w, w>>, black |-> <<b, b, b, b>>,
      ah |-> Attr(t, m, "blackareah", <<0, 0>>), av |-> Attr(t, m, "blackareav", <<0, 0>>),
      mat |-> [i \in 1..12 |-> <<"rat", IF i <= Len(mt) THEN mt[i] ELSE 0, 1>>],
      pat |-> Attr(t, m, "pat", <<>>), crops |-> Attr(t, m, "crops", <<0, 0, 0, 0>>),
      bps |-> Attr(t, m, "bps", 0), wbo |-> Attr(t, m, "wb_offset", 0),
      hints |-> {Attr(t, m, "hints", <<>>)[i] : i \in 1..Len(Attr(t, m, "hints", <<>>))},
      rw |-> Attr(t, m, "raw_width", 0), rh |-> Attr(t, m, "raw_height", 0), size |-> Attr(t, m, "filesize", 0)]
(* of several entries for one name the later in the database counts *)
Cands(make, model, mode) ==
  {<<i, n, m>> \in UNION {{<<i, n, m>> : n \in {n \in 1..Len(DB[i].names) : DB[i].names[n][1] = model},
                                          m \in (IF mode = <<>> THEN {0} ELSE {}) \cup {m \in 1..Len(DB[i].modes) : DB[i].modes[m].mode = mode}}
                           : i \in {i \in 1..Len(DB) : DB[i].make = make}} : TRUE}
Lookup(make, model, mode) ==
  LET c == Cands(make, model, mode) IN
  IF c = {} THEN <<>> ELSE
  LET x == CHOOSE x \in c : \A y \in c : x[1] > y[1] \/ (x[1] = y[1] /\ (x[2] > y[2] \/ (x[2] = y[2] /\ x[3] >= y[3])))
  IN <<Camera(DB[x[1]], IF x[3] = 0 THEN [mode |-> <<>>] ELSE DB[x[1]].modes[x[3]], DB[x[1]].names[x[2]])>>
Naked(size) == {i \in 1..Len(DB) : "filesize" \in DOMAIN DB[i] /\ DB[i].filesize = size}

(* ----------------------------------------------------------- small tools *)
NaN == <<"nan">>
NoWB == <<NaN, NaN, NaN, NaN>>
I(x) == <<"rat", x, 1>>
Q(n) == <<"rat", n[1], n[2]>>
Inv(n) == <<"rat", n[2], n[1]>>
Raw32(buf, p) == <<"bits", LE16(buf, p+2), LE16(buf, p)>>
Trunc(n) == n[1] \div n[2]
Orient(buf, t) == IF ~Has(t, 274) THEN 0 ELSE LET v == V(buf, t, 274) IN IF v \in 1..8 THEN v ELSE 0
Refused == [res |-> "err"]

Image(cam, w, h, wb, o) ==
  [res |-> "ok", cpp |-> 1, w |-> w, h |-> h, make |-> cam.make, model |-> cam.model, cmake |-> cam.cmake, cmodel |-> cam.cmodel,
   wb |-> wb, white |-> cam.white, black |-> IF cam.ah[2] # 0 \/ cam.av[2] # 0 THEN <<"masked", cam.ah, cam.av, cam.pat>> ELSE <<"levels", cam.black, {}>>,
   mat |-> cam.mat, pat |-> cam.pat, crops |-> cam.crops, orient |-> o]
With(cam, f(_)) == IF cam = <<>> THEN Refused ELSE f(cam[1])
TCam(buf, t, mode) == Lookup(Str(buf, Get(t, 271)), Str(buf, Get(t, 272)), mode)

(* --------------------------------------------------------- white balance *)
SonyWB(buf, t) ==
  LET p == F32w(buf, Get(t, 50740), 0)
      d == TLCEval(Ifd(buf, 0, p, 0, 0, 0, "<"))
      off == V(buf, d, 29184)  len == V(buf, d, 29185)
      ke == Get(d, 29217)
      plain == SonyPlain(buf, off, len, <<R16(buf, ke.pos + 2, "<"), R16(buf, ke.pos, "<")>>)
      in == TLCEval(Ifd(plain, 0, 0, off, 0, 0, "<"))
  IN IF Has(in, 29443) THEN LET l == Get(in, 29443) IN <<I(Val(plain, l, 1)), I(Val(plain, l, 0)), I(Val(plain, l, 2)), NaN>>
     ELSE LET l == Get(in, 29459) IN <<I(Val(plain, l, 0)), I(Val(plain, l, 1)), I(Val(plain, l, 3)), NaN>>

CanonWB(buf, t, cam) ==
  IF Has(t, 16385) THEN LET l == Get(t, 16385)  o == IF cam.wbo # 0 THEN cam.wbo ELSE 63
                        IN <<I(F16(buf, l, o)), I(F16(buf, l, o+1)), I(F16(buf, l, o+3)), NaN>>
  ELSE IF Has(t, 41) THEN LET l == Get(t, 41) IN <<I(F32w(buf, l, 3)), I(F32w(buf, l, 2)), I(F32w(buf, l, 4)), NaN>>
  ELSE IF Has(t, 164) THEN LET l == Get(t, 164) IN <<Q(Num(buf, l, 0)), Q(Num(buf, l, 1)), Q(Num(buf, l, 2)), NaN>>
  ELSE NoWB

CrwWB(buf, h, cam) ==
  IF Has(h, 4265) THEN LET l == Get(h, 4265) o == cam.wbo IN <<I(CVal(buf, l, o)), I(CVal(buf, l, o+1)), I(CVal(buf, l, o+3)), NaN>>
  ELSE IF Has(h, 4140) /\ "nocinfo2" \notin cam.hints
  THEN LET l == Get(h, 4140) v(i) == CVal(buf, l, i) IN
       IF v(0) > 512 THEN <<I(v(62)), I(v(63)), I(v(60)), I(v(61))>>
       ELSE <<I(v(51)), <<"rat", v(50) + v(53), 2>>, I(v(52)), NaN>>
  ELSE IF Has(h, 50)
  THEN LET l == Get(h, 50) IN
       IF CCount(l) = 768 THEN <<<<"rat", 1024, C16(buf, l, 36)>>, <<"rat", 1024, C16(buf, l, 37)>>, <<"rat", 1024, C16(buf, l, 39)>>, NaN>>
       ELSE LET o == cam.wbo
                k == IF "wb_mangle" \in cam.hints THEN <<1040, 17907>> ELSE <<0, 0>>
            IN <<I(C16(buf, l, o+1) ^^ k[2]), I(C16(buf, l, o) ^^ k[1]), I(C16(buf, l, o+2) ^^ k[1]), NaN>>
  ELSE NoWB

Serial(buf, en) ==       \* digits of the serial number, modulo 256
  LET RECURSIVE acc(_,_)
      acc(k, n) == LET c == B(buf, en.pos + k) IN
                   IF k = en.cnt \/ c = 0 THEN n
                   ELSE acc(k+1, (n*10 + (IF c >= 48 /\ c <= 57 THEN c - 48 ELSE c % 10)) % 256)
  IN acc(0, 0)
RECURSIVE Stream(_,_,_,_,_,_)
Stream(buf, p, cj, ci, ck, n) ==
  IF n = 0 THEN <<>> ELSE LET j == (cj + ci*ck) % 256 IN <<B(buf, p) ^^ j>> \o Stream(buf, p+1, j, ci, (ck + 1) % 256, n-1)
NikonWB(buf, t) ==
  IF Has(t, 12) THEN LET l == Get(t, 12) IN <<Q(Num(buf, l, 0)), I(1), Q(Num(buf, l, 1)), NaN>>
  ELSE LET l == Get(t, 151)
           ver == <<B(buf, l.pos), B(buf, l.pos+1), B(buf, l.pos+2), B(buf, l.pos+3)>>
       IN CASE ver = <<48,49,48,48>> -> <<I(F16(buf, l, 36)), I(F16(buf, l, 38)), I(F16(buf, l, 37)), NaN>>
            [] ver = <<48,49,48,51>> -> <<I(F16(buf, l, 10)), I(F16(buf, l, 11)), I(F16(buf, l, 12)), NaN>>
            [] OTHER ->
               LET old == ver = <<48,50,48,52>>
                   kd == Get(t, 167)
                   key == (B(buf, kd.pos) ^^ B(buf, kd.pos+1)) ^^ (B(buf, kd.pos+2) ^^ B(buf, kd.pos+3))
                   ci == SerialMap[Serial(buf, Get(t, 29)) + 1]
                   p == Stream(buf, l.pos + (IF old THEN 284 ELSE 4), KeyMap[key + 1], ci, 96, 24)
                   o == IF old THEN 6 ELSE 14
               IN <<I(BE16(p, o)), I(BE16(p, o+2)), I(BE16(p, o+6)), NaN>>
NrwWB(buf, t, cam) ==
  IF "nowb" \in cam.hints THEN NoWB
  ELSE IF Has(t, 12) THEN LET l == Get(t, 12) IN <<Q(Num(buf, l, 0)), I(1), Q(Num(buf, l, 1)), NaN>>
  ELSE LET l == Get(t, 20)  p == l.pos IN
       IF At(buf, p, <<78, 82, 87>>)
       THEN LET o == p + IF At(buf, p + 4, <<48,49,48,48>>) THEN 1556 ELSE 56
            IN <<I(4*R32(buf, o, "<")), I(R32(buf, o+4, "<") + R32(buf, o+8, "<")), I(4*R32(buf, o+12, "<")), NaN>>
       ELSE <<I(BE16(buf, p + 1248)), I(256), I(BE16(buf, p + 1250)), NaN>>

OlyWB(buf, t) ==
  IF Has(t, 4119) /\ Has(t, 4120) THEN <<I(V(buf, t, 4119)), I(256), I(V(buf, t, 4120)), NaN>>
  ELSE LET ip == Get(t, 8256)
           po == ip.par - 12
           d == TLCEval(Ifd(buf, 0, Val(buf, ip, 0) + po, 0, 0, 0, t.e))
           l == Get(d, 256)
           m == IF l.cnt = 4 THEN [l EXCEPT !.pos = po + l.doff] ELSE l
       IN <<I(Val(buf, m, 0)), I(256), I(Val(buf, m, 1)), NaN>>
SrwWB(buf, t) ==
  LET l == Get(t, 40993)  b == Get(t, 41000)
      x(en, i) == Val(buf, [en EXCEPT !.pos = en.par + en.doff], i)
      d(i) == I(x(l, i) - x(b, i))
  IN <<d(0), d(1), d(3), NaN>>
PanaWB(buf, t) ==
  IF Has(t, 17) /\ Has(t, 18) THEN <<I(V(buf, t, 17)), I(256), I(V(buf, t, 18)), NaN>>
  ELSE <<I(V(buf, t, 36)), I(V(buf, t, 37)), I(V(buf, t, 38)), NaN>>
FujiWB(buf, t) ==
  IF Has(t, 61454) THEN LET l == Get(t, 61454) IN <<Q(Num(buf, l, 1)), Q(Num(buf, l, 0)), Q(Num(buf, l, 2)), NaN>>
  ELSE LET l == Get(t, 12272) IN <<Q(Num(buf, l, 1)), Q(Num(buf, l, 0)), Q(Num(buf, l, 3)), NaN>>
KdcWB(buf, t) ==
  IF Has(t, 64042) THEN LET l == Get(t, 64042) IN <<Q(Num(buf, l, 0)), Q(Num(buf, l, 1)), Q(Num(buf, l, 2)), NaN>>
  ELSE LET l == Get(t, 3840) IN <<<<"rat", BE16(buf, l.pos + 148), 256>>, I(1), <<"rat", BE16(buf, l.pos + 150), 256>>, NaN>>
ErfWB(buf, t) ==
  LET l == Get(t, 3712) IN <<<<"approx", BE16(buf, l.pos + 48) * 17113, 2048000>>, I(1), <<"approx", BE16(buf, l.pos + 50) * 7001, 1024000>>, NaN>>
DcrWB(buf, t) ==
  LET l == Get(t, 1021) r(o) == <<"rat", 2048, BE16(buf, l.pos + o)>> IN
  IF l.cnt >= 46 THEN <<r(40), r(42), r(44), NaN>> ELSE NoWB
NeutralWB(buf, t) == LET l == Get(t, 50728) IN <<Inv(Num(buf, l, 0)), Inv(Num(buf, l, 1)), Inv(Num(buf, l, 2)), NaN>>

(* text: position of a byte string, 0 based, or -1 *)
IndexOf(s, w) == LET c == {i \in 0..(Len(s) - Len(w)) : s[i+1] = w[1] /\ \A k \in 1..Len(w) : s[i+k] = w[k]} IN
                 IF c = {} THEN -1 ELSE CHOOSE i \in c : \A j \in c : i <= j
RECURSIVE Decimal(_,_,_)
Decimal(s, n, d) ==         \* digits with an optional fraction -> <<n, d>>; <<>> when it is no number
  IF s = <<>> THEN (IF d < 0 THEN <<n, 1>> ELSE <<n, d>>)
  ELSE IF s[1] = 46 /\ d < 0 THEN Decimal(Tail(s), n, 1)
  ELSE IF s[1] \in 48..57 THEN Decimal(Tail(s), 10*n + s[1] - 48, IF d < 0 THEN d ELSE 10*d)
  ELSE <<>>
RECURSIVE Lines(_)
Lines(s) == LET p == IndexOf(s, <<10>>) IN
            IF s = <<>> THEN <<>> ELSE IF p < 0 THEN <<s>> ELSE <<SubSeq(s, 1, p)>> \o Lines(SubSeq(s, p+2, Len(s)))
NeutName == <<78,101,117,116,79,98,106,95,110,101,117,116,114,97,108,115>>
LeafWB(buf, t) ==
  LET m == BytesOf(buf, Get(t, 34310))
      p == IndexOf(m, NeutName)
  IN IF p < 0 \/ p + 70 >= Len(m) THEN NoWB ELSE
     LET rest == SubSeq(m, p + 45, Len(m))
         txt == UpToZero(rest)
         ns == [i \in 1..Len(Lines(txt)) |-> Decimal(Lines(txt)[i], 0, -1)]
         r(i) == IF ns[1] = <<>> \/ ns[i] = <<>> THEN NaN ELSE <<"rat", ns[1][1]*ns[i][2], ns[i][1]*ns[1][2]>>
     IN IF Len(txt) = Len(rest) \/ Len(ns) # 4 THEN NoWB ELSE <<r(2), r(3), r(4), NaN>>
Xmp(buf, t, name) ==
  LET x == Str(buf, Get(t, 700))
      open == <<60,116,105,102,102,58>> \o name \o <<62>>
      close == <<60,47,116,105,102,102,58>> \o name \o <<62>>
      a == IndexOf(x, open)  b == IndexOf(x, close)
  IN SubSeq(x, a + Len(open) + 1, b)
UpToParen(s) == LET p == IndexOf(s, <<40>>) IN IF p < 0 THEN s ELSE SubSeq(s, 1, p)

(* ------------------------------------------------------------ formats *)
Jpeg == INSTANCE Jpeg
JpegDims(buf, p) == \* of the lossless JPEG at p: <<width in samples, height, horizontal subsampling>>
  LET h == TLCEval(Jpeg!Header(buf, p, FALSE)) IN <<h.sofw * h.ncomp, h.sofh, h.sh, h.sv, h.ncomp>>

Strip(buf, t, tag, mode, wb(_), f(_)) ==   \* the many formats that are one strip in one directory
  LET cam == TCam(buf, t, mode) IN
  IF cam = <<>> THEN Refused ELSE
  LET d == FirstIfd(t, tag) IN f(Image(cam[1], V(buf, d, 256), V(buf, d, 257), wb(cam[1]), Orient(buf, t)))
Id(x) == x

Arw(buf, t) ==
  LET cam == TCam(buf, t, <<>>) IN
  IF cam = <<>> THEN Refused ELSE
  LET ds == IfdsWith(t, 273) IN
  IF ds = <<>> /\ cam[1].model = <<68,83,76,82,45,65,49,48,48>>       \* DSLR-A100
  THEN IF ~Has(t, 330) THEN Refused ELSE      \* the data is where no directory can be
       LET p == F32w(buf, Get(t, 50740), 0)
           RECURSIVE blk(_)
           blk(q) == IF q + 20 >= Len(buf) + 16 - p THEN <<I(0), I(0), I(0), NaN>>
                     ELSE IF At(buf, p + q, <<0, 87, 66, 71>>) THEN <<I(LE16(buf, p+q+12)), I(LE16(buf, p+q+14)), I(LE16(buf, p+q+18)), NaN>>
                     ELSE blk(q + R32(buf, p + q + 4, "<") + 8)
       IN Image(cam[1], 3881, 2608, blk(8), Orient(buf, t))
  ELSE IF ds = <<>>
  THEN LET d == FirstIfd(t, 256) IN Image(cam[1], V(buf, d, 256), V(buf, d, 257), NoWB, Orient(buf, t))
  ELSE LET d == ds[1]
           w == V(buf, d, 256)  h == V(buf, d, 257)
           bps == IF cam[1].bps # 0 THEN cam[1].bps ELSE V(buf, d, 258)
           taller == V(buf, d, 259) = 32767 /\ w*h*bps # 8*V(buf, d, 279)
       IN Image(cam[1], w, IF taller THEN h + 8 ELSE h, SonyWB(buf, t), Orient(buf, t))

Cr2(buf, t) ==
  LET cam == TCam(buf, t, <<>>) IN
  IF cam = <<>> THEN Refused ELSE
  LET c == cam[1]
      ds == IfdsWith(t, 50648)  dc == IfdsWith(t, 33422)
      d == IF ds # <<>> THEN ds[1] ELSE IF dc # <<>> THEN dc[1] ELSE t
      off == IF ds # <<>> \/ dc # <<>> THEN V(buf, d, 273) ELSE V(buf, t, 129)
      j == JpegDims(buf, off)
      base == Image(c, j[1], j[2], CanonWB(buf, t, c), Orient(buf, t))
  IN IF j[3] = 2
     THEN LET samples == j[1] * 1      \* three samples per pixel after upsampling
              px == IF Has(d, 256) THEN <<V(buf, d, 256), V(buf, d, 257)>>
                    ELSE IF j[1] \div 3 < j[2] THEN <<j[2], j[1] \div 3>> ELSE <<j[1] \div 3, j[2]>>
          IN [base EXCEPT !.cpp = 3, !.w = px[1], !.h = px[2], !.crops = <<0,0,0,0>>, !.black = <<"levels", <<0,0,0,0>>, {}>>,
                          !.white = <<65535,65535,65535,65535>>]
     ELSE IF "double_line" \in c.hints THEN [base EXCEPT !.w = j[1] \div 2, !.h = 2*j[2]]
     ELSE base

Nef(buf, t) ==
  LET d == FirstIfd(t, 33422)
      bps == V(buf, d, 258)
      digits == IF bps < 10 THEN <<48 + bps>> ELSE <<48 + (bps \div 10), 48 + (bps % 10)>>
      cam == TCam(buf, t, digits \o <<98,105,116>>)
      D100 == <<78,73,75,79,78,32,68,49,48,48>>
  IN IF cam = <<>> THEN Refused ELSE
     LET w == IF cam[1].model = D100 THEN 3040 ELSE V(buf, d, 256)
         h == V(buf, d, 257)
         size == V(buf, d, 279)
         base == Image(cam[1], w, h, NikonWB(buf, t), Orient(buf, t))
         plain == cam[1].model = D100 \/ V(buf, d, 259) = 1 \/ size = (w*h*bps) \div 8
     IN IF ~plain /\ size = w*h*3
        THEN [base EXCEPT !.cpp = 3, !.black = <<"levels", <<0,0,0,0>>, {}>>, !.white = <<65535,65535,65535,65535>>]
        ELSE base

Big(buf, t, tag) == LET ds == IfdsWith(t, tag)  ok == {i \in 1..Len(ds) : V(buf, ds[i], 256) > 1000} IN ds[CHOOSE i \in ok : \A j \in ok : i <= j]

Rw2(buf, t) ==
  LET d == IF IfdsWith(t, 280) # <<>> THEN FirstIfd(t, 280) ELSE FirstIfd(t, 273)
      w == V(buf, d, 2)  h == V(buf, d, 3)
      r == (w * 100) \div h
      mode == IF r < 125 THEN <<49,58,49>> ELSE IF r < 145 THEN <<52,58,51>> ELSE IF r < 165 THEN <<51,58,50>> ELSE <<49,54,58,57>>
      cam == TCam(buf, t, mode)
  IN IF cam = <<>> THEN Refused ELSE Image(cam[1], w, h, PanaWB(buf, t), Orient(buf, t))

Raf(buf, t) ==
  LET cam == TCam(buf, t, <<>>) IN
  IF cam = <<>> THEN Refused ELSE
  LET c == cam[1]
      d == FirstIfd(t, 61447)
      s == IF Has(d, 61441) THEN <<V(buf, d, 61441), V(buf, d, 61442)>> ELSE LET z == Get(d, 256) IN <<Val(buf, z, 1), Val(buf, z, 0)>>
      base == Image(c, s[1], s[2], FujiWB(buf, t), Orient(buf, t))
      cw == s[1] - c.crops[2] - c.crops[4]  ch == s[2] - c.crops[1] - c.crops[3]
      rot(w) == [base EXCEPT !.w = w, !.h = w - 1, !.crops = <<0,0,0,0>>, !.black = <<"levels", c.black, {}>>]
  IN IF "fuji_rotation_alt" \in c.hints THEN rot(ch + (cw \div 2))
     ELSE IF "fuji_rotation" \in c.hints THEN rot(cw + (ch \div 2))
     ELSE base

Iiq(buf, t) ==
  LET cam == TCam(buf, t, <<>>) IN
  IF cam = <<>> THEN Refused ELSE
  LET off == R32(buf, 16, "<") + 8
      n == R32(buf, off, "<")
      rec(tag, dflt) == LET c == {i \in 1..n : R32(buf, off + 8 + (i-1)*16, "<") = tag} IN
                        IF c = {} THEN dflt ELSE R32(buf, off + 8 + ((CHOOSE i \in c : \A j \in c : i >= j) - 1)*16 + 12, "<")
      wo == rec(263, -8) + 8
      b == (rec(541, 0) \div 4) % 65536
  IN [Image(cam[1], rec(264, 0), rec(265, 0), <<Raw32(buf, wo), Raw32(buf, wo+4), Raw32(buf, wo+8), NaN>>, Orient(buf, t))
        EXCEPT !.black = <<"levels", <<b, b, b, b>>, {}>>]

Pef(buf, t) ==
  LET f(im) == IF ~Has(t, 512) THEN im
               ELSE LET l == Get(t, 512) v(i) == Trunc(Num(buf, l, i)) IN [im EXCEPT !.black = <<"levels", <<v(0), v(1), v(3), 0>>, {4}>>]
      wb(c) == LET l == Get(t, 513) IN <<Q(Num(buf, l, 0)), Q(Num(buf, l, 1)), Q(Num(buf, l, 3)), NaN>>
  IN Strip(buf, t, 273, <<>>, wb, f)

DngSizes == [n \in {0, 4, 36, 16, 144} |-> CASE n = 0 -> <<0,0>> [] n = 4 -> <<2,2>> [] n = 36 -> <<6,6>> [] n = 16 -> <<2,8>> [] OTHER -> <<12,12>>]
Dng(buf, t) ==
  LET all == IfdsWith(t, 259)
      good == {i \in 1..Len(all) : /\ V(buf, all[i], 259) \in {1, 7, 34892}
                                   /\ ~(Has(all[i], 254) /\ V(buf, all[i], 254) % 2 = 1)}
      d == all[CHOOSE i \in good : \A j \in good : i <= j]
      w == V(buf, d, 256)  h == V(buf, d, 257)  cpp == V(buf, d, 277)
      linear == V(buf, d, 262) = 34892
      make == Str(buf, Get(t, 271))  model == Str(buf, Get(t, 272))
      cam == Lookup(make, model, <<>>)
      pe == Get(d, 33422)
      pat == IF linear THEN <<>> ELSE [i \in 1..pe.cnt |-> Val(buf, pe, i-1)]
      bl == IF ~Has(d, 50714) THEN <<"levels", <<0,0,0,0>>, {}>>
            ELSE LET l == Get(d, 50714)
                     v(i) == Trunc(Num(buf, l, i))
                     first(col) == LET c == {i \in 1..Len(pat) : pat[i] = col} IN v((CHOOSE i \in c : \A j \in c : i <= j) - 1)
                 IN IF linear THEN <<"levels", [i \in 1..4 |-> IF i <= l.cnt THEN v(i-1) ELSE v(0)], {}>>
                    ELSE IF l.cnt = Len(pat) THEN <<"levels", [col \in 1..4 |-> IF \E i \in 1..Len(pat) : pat[i] = col-1 THEN first(col-1) ELSE 0],
                                                    {col \in 1..4 : ~\E i \in 1..Len(pat) : pat[i] = col-1}>>
                    ELSE <<"levels", <<v(0), v(0), v(0), v(0)>>, {}>>
      wl == V(buf, d, 50717) % 65536
      aa == Get(d, 50829)
      mtag == IF Has(t, 50722) THEN 50722 ELSE 50721
      srgb == <<412453, 357580, 180423, 212671, 715160, 72169, 19334, 119193, 950227>>
      mat == IF ~Has(t, 50722) /\ ~Has(t, 50721) THEN [i \in 1..12 |-> IF i <= 9 THEN <<"rat", srgb[i], 1000000>> ELSE I(0)]
             ELSE LET m == Get(t, mtag) IN [i \in 1..12 |-> IF i <= m.cnt THEN Q(Num(buf, m, i-1)) ELSE I(0)]
      (* a mosaic needs a pattern of a known size made of red, green and blue *)
      nopat == ~linear /\ (~Has(d, 33422) \/ pe.cnt \notin DOMAIN DngSizes \/ \E i \in 1..Len(pat) : pat[i] > 2)
  IN IF nopat THEN Refused ELSE
     [res |-> "ok", cpp |-> cpp, w |-> w, h |-> h,
      make |-> IF cam = <<>> THEN make ELSE cam[1].make, model |-> IF cam = <<>> THEN model ELSE cam[1].model,
      cmake |-> IF cam = <<>> THEN make ELSE cam[1].cmake, cmodel |-> IF cam = <<>> THEN model ELSE cam[1].cmodel,
      wb |-> IF Has(t, 50728) THEN NeutralWB(buf, t) ELSE NoWB,
      white |-> <<wl, wl, wl, wl>>, black |-> bl, mat |-> mat, pat |-> pat,
      crops |-> IF Has(d, 50829) THEN <<Val(buf, aa, 0), w - Val(buf, aa, 3), h - Val(buf, aa, 2), Val(buf, aa, 1)>> ELSE <<0,0,0,0>>,
      orient |-> Orient(buf, t)]

RECURSIVE MrwBlocks(_,_,_)
MrwBlocks(buf, p, end) ==
  IF p + 20 >= end THEN <<>> ELSE <<[tag |-> <<B(buf,p), B(buf,p+1), B(buf,p+2), B(buf,p+3)>>, pos |-> p]>> \o MrwBlocks(buf, p + R32(buf, p+4, ">") + 8, end)
Mrw(buf) ==
  LET bs == MrwBlocks(buf, 8, R32(buf, 4, ">") + 8)
      at(tag) == bs[CHOOSE i \in 1..Len(bs) : bs[i].tag = tag].pos
      prd == at(<<0,80,82,68>>)  wbg == at(<<0,87,66,71>>)  ttw == at(<<0,84,84,87>>)
      t == TLCEval(Ifd(buf, ttw + 8, 8, 0, 0, 0, ">"))
      v(i) == I(BE16(buf, wbg + 12 + 2*i))
      f(c) == Image(c, BE16(buf, prd + 18), BE16(buf, prd + 16),
                    IF "swapped_wb" \in c.hints THEN <<v(2), v(0), v(1), NaN>> ELSE <<v(0), v(1), v(3), NaN>>, Orient(buf, t))
  IN With(TCam(buf, t, <<>>), f)

RECURSIVE Strings(_)
Strings(s) == IF s = <<>> THEN <<>> ELSE LET p == IndexOf(s, <<0>>) IN IF p < 0 THEN <<s>> ELSE <<SubSeq(s, 1, p)>> \o Strings(SubSeq(s, p+2, Len(s)))
Crw(buf, size) ==
  LET h == Heap(buf, R32(buf, 2, "<"), size, 1)
      mm == Get(h, 2058)
      ss == Strings([i \in 1..mm.size |-> B(buf, mm.pos + i - 1)])
      cam == Lookup(ss[1], ss[2], <<>>)
      pro70 == <<67,97,110,111,110,32,80,111,119,101,114,83,104,111,116,32,80,114,111,55,48>>
  IN IF ~h.ok \/ cam = <<>> THEN Refused
     ELSE IF cam[1].model = pro70 THEN Image(cam[1], 1552, 1024, CrwWB(buf, h, cam[1]), 0)
     ELSE LET si == Get(h, 4145) IN Image(cam[1], CVal(buf, si, 1), CVal(buf, si, 2), CrwWB(buf, h, cam[1]), 0)

Ari(buf) ==
  LET model == UpToZero([i \in 1..64 |-> B(buf, 667 + i)])
      f(c) == Image(c, R32(buf, 20, "<"), R32(buf, 24, "<"), <<Raw32(buf, 100), Raw32(buf, 104), Raw32(buf, 108), NaN>>, 0)
  IN With(Lookup(<<65,82,82,73>>, model, <<>>), f)

Mos(buf, t) ==
  LET d == FirstIfd(t, 324)
      f(c) == Image(c, V(buf, d, 256), V(buf, d, 257), LeafWB(buf, t), 0)
  IN With(Lookup(Xmp(buf, t, <<77,97,107,101>>), UpToParen(Xmp(buf, t, <<77,111,100,101,108>>)), <<>>), f)

Kdc(buf, t) ==
  LET f(c) == Image(c, V(buf, t, 64768) + 80, V(buf, t, 64769) + 70, KdcWB(buf, t), Orient(buf, t)) IN With(TCam(buf, t, <<>>), f)
BigStrip(buf, t, tag, wb(_)) ==
  LET f(c) == LET d == Big(buf, t, tag) IN Image(c, V(buf, d, 256), V(buf, d, 257), wb(c), Orient(buf, t)) IN With(TCam(buf, t, <<>>), f)

Bare(i) == LET c == Camera(DB[i], [mode |-> <<>>], DB[i].names[1]) IN Image(c, c.rw, c.rh, NoWB, 0)

(* ------------------------------------------------------- identification *)
(* makers as byte strings would be unreadable: JSON gives them              *)
Makers == TLCEval(JsonDeserialize(IOEnv.MAKERS))        \* sequence of [make, format]
Format(buf, size) ==
  IF At(buf, 0, <<0, 77, 82, 77>>) THEN <<"MRW">>
  ELSE IF At(buf, 6, <<72,69,65,80,67,67,68,82>>) THEN <<"CRW">>
  ELSE IF At(buf, 0, <<65,82,82,73,18,52,86,120>>) THEN <<"ARI">>
  ELSE IF At(buf, 0, <<70,79,86,98>>) THEN <<"X3F">>
  ELSE LET t == TLCEval(TiffFile(buf))
           bare == IF Naked(size) # {} THEN <<"NKD", CHOOSE i \in Naked(size) : TRUE>> ELSE <<"none">>
       IN IF ~t.ok THEN bare
          ELSE IF Has(t, 50706) THEN <<"DNG", t>>
          ELSE IF Has(t, 272) /\ Str(buf, Get(t, 272)) = <<68,67,83,53,54,48,67>> THEN <<"CR2", t>>
          ELSE IF Has(t, 271) THEN LET m == {i \in 1..Len(Makers) : Makers[i].make = Str(buf, Get(t, 271))} IN
                                   IF m = {} THEN <<"none">> ELSE <<Makers[CHOOSE i \in m : TRUE].format, t>>
          ELSE IF Has(t, 305) /\ Str(buf, Get(t, 305)) = <<67,97,109,101,114,97,32,76,105,98,114,97,114,121>> THEN <<"MOS", t>>
          ELSE bare

Expected(buf, size) ==
  LET fm == Format(buf, size)
      t == fm[2]
      none(c) == NoWB
      erf(c) == ErfWB(buf, t)  dcr(c) == DcrWB(buf, t)  oly(c) == OlyWB(buf, t)  srw(c) == SrwWB(buf, t)
      neu(c) == NeutralWB(buf, t)  nrw(c) == NrwWB(buf, t, c)
  IN CASE fm[1] = "MRW" -> Mrw(buf)
       [] fm[1] = "CRW" -> Crw(buf, size)
       [] fm[1] = "ARI" -> Ari(buf)
       [] fm[1] = "DNG" -> Dng(buf, t)
       [] fm[1] = "CR2" -> Cr2(buf, t)
       [] fm[1] = "ARW" -> Arw(buf, t)
       [] fm[1] = "MEF" -> Strip(buf, t, 33422, <<>>, none, Id)
       [] fm[1] = "ERF" -> Strip(buf, t, 33422, <<>>, erf, Id)
       [] fm[1] = "DCR" -> Strip(buf, t, 33422, <<>>, dcr, Id)
       [] fm[1] = "ORF" -> Strip(buf, t, 273, <<>>, oly, Id)
       [] fm[1] = "SRW" -> Strip(buf, t, 273, <<>>, srw, Id)
       [] fm[1] = "PEF" -> Pef(buf, t)
       [] fm[1] = "TFR" -> Strip(buf, t, 50717, <<>>, neu, Id)
       [] fm[1] = "KDC" -> Kdc(buf, t)
       [] fm[1] = "DCS" -> BigStrip(buf, t, 273, none)
       [] fm[1] = "NRW" -> BigStrip(buf, t, 33422, nrw)
       [] fm[1] = "RW2" -> Rw2(buf, t)
       [] fm[1] = "RAF" -> Raf(buf, t)
       [] fm[1] = "IIQ" -> Iiq(buf, t)
       [] fm[1] = "NEF" -> Nef(buf, t)
       [] fm[1] = "MOS" -> Mos(buf, t)
       [] fm[1] = "NKD" -> Bare(t)
       [] OTHER -> Refused
=============================================================================
