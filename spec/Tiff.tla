-------------------------------- MODULE Tiff --------------------------------
(***************************************************************************)
(* The containers: TIFF directories with their vendor variations, Fuji's   *)
(* own wrapper, Minolta's blocks and Canon's CIFF heaps.  Everything is a   *)
(* function of the bytes of the file; bytes after the end read as zero.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Bits

R16(buf, i, e) == IF e = "<" THEN LE16(buf, i) ELSE BE16(buf, i)
(* 32 bit words, as two's complement: generated files keep counts and       *)
(* offsets far below 2^31                                                   *)
R32(buf, i, e) ==
  LET hi == IF e = "<" THEN LE16(buf, i+2) ELSE BE16(buf, i)
      lo == IF e = "<" THEN LE16(buf, i) ELSE BE16(buf, i+2)
  IN (IF hi >= 32768 THEN hi - 65536 ELSE hi) * 65536 + lo
At(buf, i, s) == \A k \in 1..Len(s) : B(buf, i + k - 1) = s[k]

ElSize == <<1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8, 4>>
Typ(t) == IF t = 0 \/ t > 13 THEN 1 ELSE t

(* Entry at position p of the part of the file that starts at s; bo is what *)
(* offsets are reduced by, par the position of the directory                *)
Ent(buf, s, p, bo, par, e) ==
  LET typ == Typ(R16(buf, s + p + 2, e))
      cnt == R32(buf, s + p + 4, e)
      doff == IF cnt * ElSize[typ] <= 4 THEN p + 8 ELSE R32(buf, s + p + 8, e) - bo
  IN [tag |-> R16(buf, s + p, e), typ |-> typ, cnt |-> cnt, doff |-> doff, pos |-> s + doff, par |-> par, e |-> e]

SubTags == {330, 34665, 61440, 33424, 65024}       \* SubIFDs, Exif, RafRawSubIFD, KodakIFD, KdcIFD
NoteTag == 37500
Failed == [ok |-> FALSE]

SubVal(buf, en, j) == IF en.typ = 1 THEN B(buf, en.pos + j)
                      ELSE IF en.typ \in {3, 8} THEN R16(buf, en.pos + 2*j, en.e)
                      ELSE R32(buf, en.pos + 4*j, en.e)

Order(buf, p) == IF At(buf, p, <<73, 73>>) THEN "<" ELSE ">"
RECURSIVE Ifd(_,_,_,_,_,_,_), Note(_,_,_,_,_,_)
Ifd(buf, s, off, bo, start, depth, e) ==
  LET num == R16(buf, s + off, e) IN
  IF num > 4000 THEN Failed ELSE
  LET es == TLCEval([i \in 1..num |-> Ent(buf, s, off + 2 + (i-1)*12, bo, off, e)])
      kids == TLCEval([i \in 1..num |->
                IF depth >= 10 THEN <<>>
                ELSE IF es[i].tag \in SubTags
                THEN [j \in 1..es[i].cnt |-> Ifd(buf, s, SubVal(buf, es[i], j-1), bo, start, depth+1, e)]
                ELSE IF es[i].tag = NoteTag THEN <<Note(buf, s, es[i].doff, bo, depth+1, e)>>
                ELSE <<>>])
      plain == SelectSeq([i \in 1..num |-> i], LAMBDA i :
                 \/ es[i].tag \notin SubTags \cup {NoteTag}
                 \/ \E j \in 1..Len(kids[i]) : ~kids[i][j].ok)
  IN [ok |-> TRUE, ents |-> [i \in 1..Len(plain) |-> es[plain[i]]],
      subs |-> SelectSeq(FlattenSeq(kids), LAMBDA k : k.ok),
      next |-> R32(buf, s + off + 2 + num*12, e), start |-> start, e |-> e]

Note(buf, s, off, bo, depth, e) ==
  LET d == s + off
      skip == IF At(buf, d, <<79,76,89,77,80,85,83>>) THEN 12           \* OLYMPUS
              ELSE IF At(buf, d, <<79,76,89,77,80>>) THEN 8             \* OLYMP
              ELSE IF At(buf, d, <<69,80,83,79,78>>) THEN 8             \* EPSON
              ELSE IF At(buf, d, <<65,79,67,0>>) THEN 4                 \* AOC
              ELSE 0
      II == At(buf, d + skip, <<73, 73>>)
      MM == At(buf, d + skip, <<77, 77>>)
  IN IF At(buf, d, <<80,69,78,84,65,88>>) THEN Ifd(buf, d, 10, bo, 0, depth, Order(buf, d + 8))          \* PENTAX
     ELSE IF At(buf, d, <<78,105,107,111,110,0,2>>) THEN Ifd(buf, d + 10, 8, bo, 0, depth, Order(buf, d + 10))   \* Nikon
     ELSE Ifd(buf, s, off + skip + (IF II \/ MM THEN 2 ELSE 0), bo, 0, depth, IF II THEN "<" ELSE IF MM THEN ">" ELSE e)

(* the chain of directories of a TIFF header at position p *)
RECURSIVE Chain(_,_,_,_,_)
Chain(buf, p, off, e, n) ==
  LET d == TLCEval(Ifd(buf, p, off, 0, p, 0, e)) IN
  IF ~d.ok THEN <<Failed>> ELSE IF d.next = 0 \/ n = 100 THEN <<d>> ELSE <<d>> \o Chain(buf, p, d.next, e, n+1)
Root(buf, p) ==
  IF ~At(buf, p, <<73, 73>>) /\ ~At(buf, p, <<77, 77>>) THEN Failed ELSE
  LET e == Order(buf, p)
      o == R32(buf, p + 4, e)
      \* a first directory outside the file (or beyond 2^31) is none
      c == IF o < 0 \/ p + o >= Len(buf) THEN <<Failed>> ELSE Chain(buf, p, o, e, 1)
  IN IF \E i \in 1..Len(c) : ~c[i].ok THEN Failed
     ELSE [ok |-> TRUE, ents |-> <<>>, subs |-> c, next |-> 0, start |-> p, e |-> e]

(* Fuji: a TIFF inside the preview, usually one around the data, and a      *)
(* list of records                                                          *)
RECURSIVE FujiRecs(_,_,_)
FujiRecs(buf, p, n) ==
  IF n = 0 THEN <<>> ELSE
  LET tag == BE16(buf, p)  len == BE16(buf, p+2)
      en(c) == <<[tag |-> tag, typ |-> 3, cnt |-> c, doff |-> p + 4, pos |-> p + 4, par |-> 0, e |-> ">"]>>
  IN (IF tag = 256 THEN en(2) ELSE IF tag = 12272 THEN en(4) ELSE <<>>) \o FujiRecs(buf, p + len + 4, n-1)
IsFuji(buf) == At(buf, 0, <<70,85,74,73,70,73,76,77>>)
FujiFile(buf) ==
  LET a == Root(buf, R32(buf, 84, ">") + 12)
      b == Root(buf, R32(buf, 100, ">"))
      fo == R32(buf, 92, ">")
      fn == R32(buf, fo, ">")
      f == IF fn > 4000 THEN <<>>
           ELSE <<[ok |-> TRUE, ents |-> FujiRecs(buf, fo + 4, fn), subs |-> <<>>, next |-> 0, start |-> 0, e |-> ">"]>>
  IN IF ~a.ok THEN Failed ELSE
     [ok |-> TRUE, subs |-> <<a>> \o (IF b.ok THEN <<b>> ELSE <<>>) \o f, next |-> 0, start |-> 0, e |-> a.e,
      ents |-> IF b.ok THEN <<>> ELSE <<[tag |-> 61447, typ |-> 4, cnt |-> 1, doff |-> 100, pos |-> 100, par |-> 0, e |-> ">"]>>]
TiffFile(buf) == IF IsFuji(buf) THEN FujiFile(buf) ELSE Root(buf, 0)

(* ------------------------------------------------------------ looking up *)
Own(d, tag) == SelectSeq(d.ents, LAMBDA x : x.tag = tag)
RECURSIVE Find(_,_), FindIn(_,_,_)
(* <<entry>> or <<>>: the directory itself, then those inside it in order *)
Find(d, tag) == LET o == Own(d, tag) IN IF o # <<>> THEN <<o[Len(o)]>> ELSE FindIn(d.subs, tag, 1)
FindIn(ds, tag, i) == IF i > Len(ds) THEN <<>> ELSE LET f == Find(ds[i], tag) IN IF f # <<>> THEN f ELSE FindIn(ds, tag, i+1)
Has(d, tag) == Find(d, tag) # <<>>
Get(d, tag) == Find(d, tag)[1]
RECURSIVE IfdsWith(_,_)
IfdsWith(d, tag) == (IF Own(d, tag) # <<>> THEN <<d>> ELSE <<>>) \o FlattenSeq([i \in 1..Len(d.subs) |-> IfdsWith(d.subs[i], tag)])
FirstIfd(d, tag) == IfdsWith(d, tag)[1]

(* ---------------------------------------------------------------- values *)
Val(buf, en, i) ==
  IF en.typ = 1 THEN B(buf, en.pos + i)
  ELSE IF en.typ \in {3, 8} THEN R16(buf, en.pos + 2*i, en.e)
  ELSE R32(buf, en.pos + 4*i, en.e)
V(buf, d, tag) == Val(buf, Get(d, tag), 0)
F16(buf, en, i) == R16(buf, en.pos + 2*i, en.e)
F32w(buf, en, i) == R32(buf, en.pos + 4*i, en.e)
(* a number as numerator and denominator *)
Num(buf, en, i) == IF en.typ \in {5, 10} THEN <<R32(buf, en.pos + 8*i, en.e), R32(buf, en.pos + 8*i + 4, en.e)>>
                   ELSE <<Val(buf, en, i), 1>>
Blank == {9, 10, 11, 12, 13, 32}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] \in Blank THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN TrimR(SubSeq(s, 1, Len(s)-1)) ELSE s
UpToZero(s) == LET z == {i \in 1..Len(s) : s[i] = 0} IN
               IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
BytesOf(buf, en) == [i \in 1..(en.cnt * ElSize[en.typ]) |-> B(buf, en.pos + i - 1)]
Str(buf, en) == TrimL(TrimR(UpToZero(BytesOf(buf, en))))

(* ------------------------------------------------------------------ CIFF *)
RECURSIVE Heap(_,_,_,_)
Heap(buf, start, end, depth) ==
  LET vs == R32(buf, end - 4, "<")
      n == LE16(buf, start + vs)
      en(i) == LET p == start + vs + 2 + (i-1)*10
                   w == LE16(buf, p)
                   direct == (w \div 16384) % 4 = 1
               IN [tag |-> w % 16384, typ |-> ((w \div 2048) % 8) * 2048,
                   size |-> IF direct THEN 8 ELSE R32(buf, p + 2, "<"),
                   pos |-> IF direct THEN p + 2 ELSE R32(buf, p + 6, "<") + start,
                   bad |-> (w \div 16384) >= 2]
      es == TLCEval([i \in 1..n |-> en(i)])
      IsSub(x) == x.typ \in {10240, 12288}
      kids == [i \in 1..n |-> IF IsSub(es[i]) /\ depth < 10 THEN <<Heap(buf, es[i].pos, es[i].pos + es[i].size, depth+1)>> ELSE <<>>]
  IN IF \E i \in 1..n : es[i].bad THEN Failed
     ELSE [ok |-> TRUE,
           ents |-> SelectSeq(es, LAMBDA x : ~IsSub(x)),
           subs |-> SelectSeq(FlattenSeq(kids), LAMBDA k : k.ok)]
CVal(buf, en, i) == IF en.typ \in {0, 32768} THEN B(buf, en.pos + i)
                    ELSE IF en.typ = 4096 THEN LE16(buf, en.pos + 2*i) ELSE R32(buf, en.pos + 4*i, "<")
CCount(en) == IF en.typ \in {0, 32768} THEN en.size ELSE IF en.typ = 4096 THEN en.size \div 2
              ELSE IF en.typ \in {6144, 8192, 10240, 12288} THEN en.size \div 4 ELSE en.size
C16(buf, en, i) == LE16(buf, en.pos + 2*i)
=============================================================================
