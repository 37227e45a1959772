-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Byte, word and bit-stream semantics shared by every format.             *)
(*                                                                         *)
(* A bit stream is described by what it *means*, never by how a decoder    *)
(* refills an accumulator: a field of n bits starting at bit position p is *)
(* a slice of the (possibly permuted) byte sequence.  All fields are at    *)
(* most 17 bits wide, so they fit in three consecutive stream bytes and    *)
(* the arithmetic stays inside TLC's 32-bit integers.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(* 2^k for k in 0..30, as a table: TLC's ^ is slow *)
P2 == [k \in 0..30 |-> 2^k]

(* files are followed by zero bytes, as the loader pads them *)
B(buf, i) == IF i < Len(buf) THEN buf[i+1] ELSE 0

U16(x) == x % 65536
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Clamp(x, n) == IF x < 0 THEN 0 ELSE IF x >= P2[n] THEN P2[n] - 1 ELSE x

LE16(buf, i) == B(buf, i) + 256 * B(buf, i+1)
BE16(buf, i) == 256 * B(buf, i) + B(buf, i+1)
E16(buf, i, little) == IF little THEN LE16(buf, i) ELSE BE16(buf, i)

(* byte number i of the stream, per stream kind *)
StreamByte(kind, buf, base, i) ==
  CASE kind = "msb"   -> B(buf, base + i)
    [] kind = "msb32" -> B(buf, base + (i - (i % 4)) + 3 - (i % 4))
    [] kind = "lsb"   -> B(buf, base + i)
    [] OTHER          -> B(buf, base + i)

(* n-bit field at bit position p; n <= 17 *)
Field(kind, buf, base, p, n) ==
  IF n = 0 THEN 0 ELSE
  LET i  == p \div 8
      s  == p % 8
      b0 == StreamByte(kind, buf, base, i)
      b1 == StreamByte(kind, buf, base, i+1)
      b2 == StreamByte(kind, buf, base, i+2)
  IN IF kind = "lsb"
     THEN ((b0 + 256*b1 + 65536*b2) \div P2[s]) % P2[n]
     ELSE ((b0*65536 + b1*256 + b2) \div P2[24 - s - n]) % P2[n]

(* JPEG magnitude extension: s bits v -> signed difference *)
Extend(v, s) == IF s = 0 THEN 0 ELSE IF v < P2[s-1] THEN v - (P2[s] - 1) ELSE v

(* two's complement sign extension of an s-bit field *)
SExt(v, s) == IF s = 0 THEN 0 ELSE IF v >= P2[s-1] THEN v - P2[s] ELSE v

(* JPEG entropy-coded segment: FF 00 stands for FF, FF xx ends the segment *)
Unstuff(buf, base) ==
  LET n == Len(buf)
      ends == {i \in (base+1)..(n-1) : buf[i] = 255 /\ buf[i+1] # 0}
      last == IF ends = {} THEN n ELSE (CHOOSE i \in ends : \A j \in ends : i <= j) - 1
      keep == SelectSeq([k \in 1..(last - base) |-> base + k],
                        LAMBDA i : ~(buf[i] = 0 /\ i > base+1 /\ buf[i-1] = 255))
  IN [k \in 1..Len(keep) |-> buf[keep[k]]]

(***************************************************************************)
(* Huffman codes in the JPEG style: bits[l] codes of length l, values in   *)
(* code order.  Left-justified to 16 bits the codes of length <= l fill    *)
(* exactly [0, Lim[l]).                                                    *)
(***************************************************************************)
RECURSIVE SumTo(_, _)
SumTo(f, l) == IF l = 0 THEN 0 ELSE f[l] + SumTo(f, l-1)

HuffTab(bits, vals) ==
  [ lim  |-> TLCEval([l \in 1..16 |-> SumTo([i \in 1..16 |-> bits[i] * P2[16-i]], l)]),
    off  |-> TLCEval([l \in 1..16 |-> SumTo(bits, l)]),
    vals |-> vals ]

RECURSIVE HLen(_, _, _)
HLen(t, peek, l) == IF l > 16 THEN 0 ELSE IF peek < t.lim[l] THEN l ELSE HLen(t, peek, l+1)

(* decoded symbol: <<code length, value>>; length 0 = no such code *)
HSym(t, peek) ==
  LET l == HLen(t, peek, 1) IN
  IF l = 0 THEN <<0, 0>> ELSE
  LET below == IF l = 1 THEN 0 ELSE t.lim[l-1]
      first == IF l = 1 THEN 0 ELSE t.off[l-1]
  IN <<l, t.vals[first + ((peek - below) \div P2[16-l]) + 1]>>

(* one lossless-JPEG difference at bit p: <<new position, difference>>.
   extra16: the encoder writes 16 additional bits after category 16. *)
HDiff(t, kind, buf, base, p, extra16) ==
  LET sym == HSym(t, Field(kind, buf, base, p, 16))
      q == p + sym[1]
      s == sym[2]
  IN IF s = 16 THEN <<IF extra16 THEN q + 16 ELSE q, -32768>>
     ELSE <<q + s, Extend(Field(kind, buf, base, q, s), s)>>

(***************************************************************************)
(* Tone curve lookup with dithering.  The generator state is a pair of     *)
(* 16-bit halves so that a full 32-bit seed can be represented.            *)
(***************************************************************************)
Dither(tab, v, rnd) ==
  LET n == Len(tab)
      center == tab[v+1]
      lower == IF v > 0 THEN tab[v] ELSE center
      upper == IF v < n-1 THEN tab[v+2] ELSE center
      base == IF center = 0 THEN 0 ELSE Max(0, center - ((upper - lower + 2) \div 4))   \* not below black
      delta == upper - lower
  IN Min(65535, base + ((delta * (rnd[2] % 2048) + 1024) \div 4096))
NextRnd(rnd) == LET x == 15700 * rnd[2] + rnd[1] IN <<x \div 65536, x % 65536>>
=============================================================================
