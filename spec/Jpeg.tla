-------------------------------- MODULE Jpeg --------------------------------
(***************************************************************************)
(* The header of a lossless JPEG stream: a machine that goes from marker   *)
(* to marker until it reaches the scan or a reason to refuse the stream.   *)
(* Positions are 0-based offsets into the file.  What the raw files allow  *)
(* beyond the standard: bytes that belong to no segment are passed over,   *)
(* and with `fix' the component numbers of the scan are not looked at.     *)
(***************************************************************************)
EXTENDS Bits, TLC

Refused(why) == [res |-> why]

(* the first marker at or after i: <<its code, the position behind it>>; code 0 if there's none *)
RECURSIVE NextMarker(_, _)
NextMarker(buf, i) ==
  IF i + 1 >= Len(buf) THEN <<0, i>>
  ELSE IF B(buf, i) = 255 /\ B(buf, i+1) \notin {0, 255} THEN <<B(buf, i+1), i + 2>>
  ELSE NextMarker(buf, i + 1)

NoTable == [bits |-> TLCEval([l \in 1..16 |-> 0]), vals |-> <<>>]
Start(at) == [i |-> at, prec |-> 0, w |-> 0, h |-> 0, comps |-> <<>>, dht |-> <<NoTable, NoTable, NoTable, NoTable>>, ri |-> 0]

(* DHT: tables until the segment is used up; a later definition replaces an earlier one *)
RECURSIVE Dht(_, _, _, _)
Dht(buf, i, left, dht) ==
  IF left = 0 THEN [res |-> "ok", i |-> i, dht |-> dht]
  ELSE LET class == B(buf, i) \div 16
           id == B(buf, i) % 16
           bits == TLCEval([l \in 1..16 |-> B(buf, i + l)])
           n == SumTo(bits, 16)
       IN IF class # 0 THEN Refused("table class")
          ELSE IF id > 3 THEN Refused("table number")
          ELSE IF n > 256 THEN Refused("table size")
          ELSE IF left < 17 + n THEN Refused("table length")
          ELSE Dht(buf, i + 17 + n, left - 17 - n,
                   [dht EXCEPT ![id + 1] = [bits |-> bits, vals |-> TLCEval([v \in 1..n |-> B(buf, i + 16 + v)])]])

Sof(buf, i, s) ==
  LET prec == B(buf, i + 2)
      n == B(buf, i + 7)
  IN IF prec < 12 \/ prec > 16 THEN Refused("precision")
     ELSE IF n < 1 \/ n > 4 THEN Refused("components")
     ELSE IF BE16(buf, i) # 8 + 3*n THEN Refused("frame header length")
     ELSE [s EXCEPT !.i = i + 8 + 3*n, !.prec = prec, !.h = BE16(buf, i + 3), !.w = BE16(buf, i + 5),
                    !.comps = [c \in 1..n |-> [id |-> B(buf, i + 5 + 3*c), sh |-> B(buf, i + 6 + 3*c) \div 16,
                                               sv |-> B(buf, i + 6 + 3*c) % 16]]]

Sos(buf, i, s, fix) ==
  LET n == B(buf, i + 2)
      sel(k) == IF fix THEN k - 1 ELSE B(buf, i + 1 + 2*k)
      who(k) == {c \in 1..Len(s.comps) : s.comps[c].id = sel(k)}
      td(k) == B(buf, i + 2 + 2*k) \div 16
      of(c) == CHOOSE k \in 1..n : who(k) = {c}
      q == i + 3 + 2*n
  IN IF s.w = 0 THEN Refused("scan before frame")
     ELSE IF n # Len(s.comps) THEN Refused("components of the scan")
     ELSE IF \E k \in 1..n : who(k) = {} THEN Refused("component selector")
     ELSE IF \E k \in 1..n : td(k) > 3 THEN Refused("table selector")
     ELSE [res |-> "ok", off |-> q + 3, prec |-> s.prec, sofw |-> s.w, sofh |-> s.h, ncomp |-> n,
           sh |-> s.comps[1].sh, sv |-> s.comps[1].sv, tsel |-> TLCEval([c \in 1..n |-> td(of(c))]), dht |-> s.dht,
           pred |-> B(buf, q), pt |-> B(buf, q + 2) % 16, ri |-> s.ri]

(* one segment *)
Segment(buf, s, fix) ==
  LET m == NextMarker(buf, s.i)
      i == m[2]
      len == BE16(buf, i)
  IN CASE m[1] = 0 -> Refused("no scan")
       [] m[1] = 195 -> Sof(buf, i, s)
       [] m[1] = 196 -> LET d == Dht(buf, i + 2, len - 2, s.dht) IN
                        IF d.res # "ok" THEN d ELSE [s EXCEPT !.i = d.i, !.dht = d.dht]
       [] m[1] = 218 -> Sos(buf, i, s, fix)
       [] m[1] = 217 -> Refused("end before scan")
       [] m[1] = 219 -> Refused("quantisation")
       [] m[1] = 221 -> [s EXCEPT !.i = i + 4, !.ri = BE16(buf, i + 2)]
       [] m[1] = 254 \/ m[1] \in 224..239 ->
            IF len < 2 THEN Refused("segment length") ELSE [s EXCEPT !.i = i + len]
       [] OTHER -> [s EXCEPT !.i = i]

(* the header is over once there's a result; at most SEGMENTS segments *)
SEGMENTS == 48
Header(buf, at, fix) ==
  IF B(buf, at) # 255 \/ B(buf, at + 1) # 216 THEN Refused("no start of image")
  ELSE LET after[n \in 0..SEGMENTS] ==
             IF n = 0 THEN Start(at + 2)
             ELSE LET s == after[n-1] IN IF "res" \in DOMAIN s THEN s ELSE Segment(buf, s, fix)
       IN after[SEGMENTS]

(* which streams the decoders of single scans take *)
Supported(h) ==
  IF h.res # "ok" THEN h.res
  ELSE IF h.pred \notin {1, 8} THEN "predictor"
  ELSE IF h.pred = 1 /\ h.ncomp = 1 THEN "single component"
  ELSE IF h.pred = 1 /\ h.ri # 0 /\ h.ri * h.sh * h.sv < h.sofw * h.sofh THEN "restart intervals"
  ELSE IF \E c \in 1..h.ncomp : h.dht[h.tsel[c] + 1].vals = <<>> THEN "table missing"
  ELSE "ok"
=============================================================================
