----------------------------- MODULE SonyCrypt -----------------------------
(***************************************************************************)
(* The key stream of Sony's encrypted blocks: a pad of 128 words grown     *)
(* from the key by a shift register, then one word at a time.  Words are   *)
(* <<high half, low half>>, since TLC's integers are 32 bits signed.       *)
(***************************************************************************)
EXTENDS Bits, TLC, Bitwise

(* ------------------------------------------------ 32 bit words as halves *)
W(hi, lo) == <<hi, lo>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Top(a) == a[1] \div 32768
Shl1(a) == <<((2*a[1]) % 65536) + (a[2] \div 32768), (2*a[2]) % 65536>>
(* a * (745*65536 + 3805) + 1, 48828125 = 745*65536 + 3805 *)
WStep(a) ==
  LET al == a[2]  ah == a[1]
      p0 == al * 3805 + 1
      lo == p0 % 65536
      hi == ((p0 \div 65536) + ((al * 745) % 65536) + ((ah * 3805) % 65536)) % 65536
  IN <<hi, lo>>
RECURSIVE PadTo(_)
PadTo(p) ==
  IF Len(p) >= 127 THEN p
  ELSE LET n == Len(p)
           a == Shl1(WXor(p[n-3], p[n-1]))
           b == Top(WXor(p[n-2], p[n]))
       IN PadTo(p \o <<<<a[1], a[2] + b>>>>)       \* bit 0 is free after the shift
SonyPad(key) ==
  LET k1 == WStep(key) k2 == WStep(k1) k3 == WStep(k2) k4 == WStep(k3)
      s4 == LET a == Shl1(k4) IN <<a[1], a[2] + Top(WXor(k1, k3))>>
  IN TLCEval(PadTo(<<k1, k2, k3, s4>>))
(* the key stream is stored in network order *)
Rev(a) == LET r(x) == (x % 256)*256 + (x \div 256) IN <<r(a[2]), r(a[1])>>
SonyStart(key) == LET p == SonyPad(key) IN TLCEval([i \in 1..128 |-> IF i <= 127 THEN Rev(p[i]) ELSE <<0, 0>>])
(* word i of the stream (from 0) and the pad afterwards *)
SonyKeyWord(pad, i) == LET p == i + 127 IN WXor(pad[((p+1) % 128) + 1], pad[((p+65) % 128) + 1])
SonyNext(pad, i) == [pad EXCEPT ![((i+127) % 128) + 1] = SonyKeyWord(pad, i)]
WBytes(x) == <<x[2] % 256, x[2] \div 256, x[1] % 256, x[1] \div 256>>
RECURSIVE SonyWords(_,_,_,_,_)
SonyWords(buf, off, pad, i, n) ==
  IF i = n THEN <<>> ELSE
  WBytes(WXor(<<LE16(buf, off + 4*i + 2), LE16(buf, off + 4*i)>>, SonyKeyWord(pad, i))) \o SonyWords(buf, off, TLCEval(SonyNext(pad, i)), i+1, n)
SonyPlain(buf, off, len, key) == TLCEval(SonyWords(buf, off, SonyStart(key), 0, (len \div 4) + 1))
=============================================================================
