----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded decodings with Codecs.                          *)
(*                                                                         *)
(* CASES (environment) names a JSON file: a sequence of recorded decodings *)
(* of the real library, each with the bytes of the file, the parameters    *)
(* the container declares and the samples observed (obs).  Each case is    *)
(* one behaviour of the specification; a state is a position in the        *)
(* stream.  The invariant says every sample the specification defines is   *)
(* the sample the library returned, and that the specification defined     *)
(* them all.                                                               *)
(***************************************************************************)
EXTENDS Codecs, Tables, Jpeg, Json, IOUtils

Recorded == TLCEval(JsonDeserialize(IOEnv.CASES))
(* the tiles of one file share its bytes and samples *)
Cases == TLCEval(LET rec == Recorded IN [i \in 1..Len(rec.cases) |->
           LET q == rec.cases[i] f == rec.files[q.data + 1]
               c == [q EXCEPT !.data = f.data, !.obs = f.obs]
           IN IF "jpeg" \notin DOMAIN q THEN c
              ELSE LET h == Header(f.data, q.jpeg, q.codec = "leaf")
                       why == IF q.codec = "leaf" THEN h.res ELSE Supported(h)
                   IN IF why # "ok" THEN [c EXCEPT !.refused = why, !.units = 0, !.nout = 0]
                      ELSE [c EXCEPT !.off = h.off, !.prec = h.prec, !.sofw = h.sofw, !.sofh = h.sofh, !.ncomp = h.ncomp,
                                     !.sv = h.sv, !.tsel = h.tsel, !.dht = h.dht, !.pt = h.pt]])
N == Len(Cases)

(* a stream whose header says it isn't one for the decoder *)
No(C) == "jpeg" \in DOMAIN C /\ C.refused # ""

(* split a Leaf stream at its markers *)
LeafStrips(C) ==
  LET n == Len(C.data)
      marks == {i \in (C.off+1)..(n-1) : C.data[i] = 255 /\ C.data[i+1] # 0}
      eoi == {i \in marks : C.data[i+1] = 217}
      last == IF eoi = {} THEN n ELSE CHOOSE i \in eoi : \A j \in eoi : i <= j
      starts == {C.off} \cup {i + 1 : i \in {j \in marks : j < last}}
      nth(k) == CHOOSE s \in starts : Cardinality({t \in starts : t < s}) = k - 1
  IN [k \in 1..Cardinality(starts) |-> Unstuff(C.data, nth(k))]

HT(C) == TLCEval([i \in 1..Len(C.dht) |-> HuffTab(C.dht[i].bits, C.dht[i].vals)])

TablesOf(C) ==
  CASE C.codec \in {"lj", "cr2", "sraw"} -> [ht |-> HT(C), bits |-> Unstuff(C.data, C.off)]
    [] C.codec = "hass" -> [ht |-> HT(C)]
    [] C.codec = "leaf" -> [ht |-> HT(C), strips |-> LeafStrips(C)]
    [] C.codec = "nef"  -> [ht |-> <<NefTree[C.tree], NefTree[IF C.split > 0 THEN C.tree + 1 ELSE C.tree]>>,
                            curve |-> NefCurve(C)]
    [] C.codec = "pef"  -> [ht |-> <<IF C.custom THEN PefTab(C) ELSE PefLegacy>>]
    [] C.codec = "snef" -> [curve |-> C.curve]
    [] C.codec = "arw2" -> [curve |-> SonyCurve(C.knots)]
    [] C.codec = "crw"  -> [ht |-> <<CrwFirst[C.tree+1], CrwSecond[C.tree+1]>>, bits |-> CrwStream(C)]
    [] OTHER -> [none |-> 0]

T == TLCEval(LET cs == Cases IN [i \in 1..Len(cs) |-> IF No(cs[i]) THEN <<>> ELSE TablesOf(cs[i])])

InitR(C) ==
  CASE C.codec \in {"lj", "sraw"} -> [left |-> <<>>, start |-> <<>>]
    [] C.codec = "cr2"  -> [left |-> <<>>, start |-> <<>>, rnd |-> <<0,0>>]
    [] C.codec = "leaf" -> [left |-> <<>>, start |-> <<>>]
    [] C.codec = "hass" -> <<32768, 32768>>
    [] C.codec = "nef"  -> [up1 |-> C.up1, up2 |-> C.up2, l1 |-> 0, l2 |-> 0,
                            rnd |-> <<B(C.data, C.off), BE16(C.data, C.off + 1)>>]
    [] C.codec = "pef"  -> [up1 |-> <<0,0>>, up2 |-> <<0,0>>, l1 |-> 0, l2 |-> 0]
    [] C.codec = "srw1" -> <<4,4,4,4>>
    [] C.codec = "srw2" -> [v |-> <<0,0,0,0>>, h |-> <<0,0>>]
    [] C.codec = "srw3" -> [base |-> 0, mode |-> <<>>, motion |-> 7, scale |-> 0]
    [] C.codec = "arw1" -> 0
    [] C.codec = "arw2" -> <<0,0>>
    [] C.codec = "srf"  -> SrfStart(C)
    [] C.codec = "orf"  -> [a |-> <<<<0,0,0>>,<<0,0,0>>>>, left |-> <<0,0>>, nw |-> <<0,0>>]
    [] C.codec = "pana" -> 0
    [] C.codec = "crw"  -> [carry |-> 0, base |-> <<0,0>>]
    [] C.codec = "dcr"  -> [seg |-> 0, next |-> 0, pred |-> <<0,0>>, rnd |-> <<0,0>>]
    [] C.codec = "snef" -> <<0,0>>
    [] C.codec = "iiq"  -> [pred |-> <<0,0>>, len |-> <<0,0>>]

Step(C, Tb, k, p, r) ==
  CASE C.codec = "lj"   -> LjStep(C, Tb, k, p, r)
    [] C.codec = "cr2"  -> Cr2Step(C, Tb, k, p, r)
    [] C.codec = "sraw" -> SrawStep(C, Tb, k, p, r)
    [] C.codec = "hass" -> HassStep(C, Tb, k, p, r)
    [] C.codec = "leaf" -> LeafStep(C, Tb, k, p, r)
    [] C.codec = "nef"  -> NefStep(C, Tb, k, p, r)
    [] C.codec = "pef"  -> PefStep(C, Tb, k, p, r)
    [] C.codec = "srw1" -> Srw1Step(C, Tb, k, p, r)
    [] C.codec = "srw2" -> Srw2Step(C, Tb, k, p, r)
    [] C.codec = "srw3" -> Srw3Step(C, Tb, k, p, r)
    [] C.codec = "arw1" -> Arw1Step(C, Tb, k, p, r)
    [] C.codec = "arw2" -> Arw2Step(C, Tb, k, p, r)
    [] C.codec = "srf"  -> SrfStep(C, Tb, k, p, r)
    [] C.codec = "orf"  -> OrfStep(C, Tb, k, p, r)
    [] C.codec = "pana" -> PanaStep(C, Tb, k, p, r)
    [] C.codec = "crw"  -> CrwStep(C, Tb, k, p, r)
    [] C.codec = "dcr"  -> DcrStep(C, Tb, k, p, r)
    [] C.codec = "snef" -> SnefStep(C, Tb, k, p, r)
    [] C.codec = "iiq"  -> IiqStep(C, Tb, k, p, r)

VARIABLES c,    \* case number
          k,    \* units decoded
          p,    \* bit position
          r,    \* predictor registers
          n,    \* samples accounted for
          bad   \* <<>> or the first disagreement
vars == <<c, k, p, r, n, bad>>

(* the library must have accepted the file with the declared geometry *)
Shape(C) ==
  IF No(C) THEN (IF C.res = "ok" THEN <<"decoded", "although", C.refused>> ELSE <<>>)
  ELSE IF C.res # "ok" THEN <<"not decoded", C.res>>
  ELSE IF C.got # C.want THEN <<"geometry", C.got, C.want>>
  ELSE IF Len(C.obs) # (IF "cols" \in DOMAIN C THEN C.cols ELSE C.want[1] * C.want[3]) * C.want[2] THEN <<"length", Len(C.obs)>>
  ELSE <<>>

Init == /\ c \in 1..N
        /\ k = 0 /\ p = 0 /\ n = 0
        /\ r = IF No(Cases[c]) THEN <<>> ELSE InitR(Cases[c])
        /\ bad = Shape(Cases[c])

(* an output is <<position, value>>, or <<position, least, greatest>> where *)
(* the definition is real-valued                                            *)
Wrong(C, o) == IF Len(o) = 2 THEN C.obs[o[1] + 1] # o[2]
               ELSE C.obs[o[1] + 1] < o[2] \/ C.obs[o[1] + 1] > o[3]
Mismatch(C, outs) ==
  LET wrong == {i \in 1..Len(outs) : Wrong(C, outs[i])} IN
  IF wrong = {} THEN <<>>
  ELSE LET i == CHOOSE j \in wrong : \A m \in wrong : j <= m IN
       <<"sample", outs[i][1], "expected", Tail(outs[i]), "observed", C.obs[outs[i][1] + 1]>>

Decode ==
  /\ bad = <<>>
  /\ k < Cases[c].units
  /\ LET s == Step(Cases[c], T[c], k, p, r) IN
     /\ k' = k + 1
     /\ p' = s.p
     /\ r' = s.r
     /\ n' = n + Len(s.outs)
     /\ bad' = Mismatch(Cases[c], s.outs)
     /\ c' = c

(* all samples have been accounted for *)
Next == Decode
Spec == Init /\ [][Next]_vars

Conforms == bad = <<>>
Complete == (bad = <<>> /\ k = Cases[c].units) => n = Cases[c].nout
Report == [case |-> Cases[c].id, unit |-> k, bit |-> p, bad |-> bad, n |-> n]
=============================================================================
