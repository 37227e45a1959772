------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Code tables that are part of a format rather than of a file: the        *)
(* prefix codes of Nikon NEF, Pentax PEF (cameras that do not store one)   *)
(* and Canon CRW.  bits[l] = number of codes of length l; vals = symbols   *)
(* in code order.                                                          *)
(***************************************************************************)
EXTENDS Codecs

Built(t) == HuffTab(t.bits, t.vals)

(* 1: 12-bit lossy, 2: the same after the split row, 3: 12-bit lossless,   *)
(* 4: 14-bit lossy, 5: the same after the split row, 6: 14-bit lossless.   *)
(* After the split a symbol is 16*shift + length.                          *)
NefTreeSrc == <<
  [bits |-> <<0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12, 0, 0, 0>>],
  [bits |-> <<0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<57, 90, 56, 39, 22, 5, 4, 3, 2, 1, 0, 11, 12, 12, 0, 0>>],
  [bits |-> <<0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<5, 4, 6, 3, 7, 2, 8, 1, 9, 0, 10, 11, 12, 0, 0, 0>>],
  [bits |-> <<0, 1, 4, 3, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14, 0>>],
  [bits |-> <<0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0>>,
     vals |-> <<8, 92, 75, 58, 41, 7, 6, 5, 4, 3, 2, 1, 0, 13, 14, 0>>],
  [bits |-> <<0, 1, 4, 2, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14, 0>>] >>
NefTree == TLCEval([i \in 1..6 |-> Built(NefTreeSrc[i])])

PefLegacy == TLCEval(Built([bits |-> <<0,2,3,1,1,1,1,1,1,2,0,0,0,0,0,0>>,
                            vals |-> <<3,4,2,5,1,6,0,7,8,9,10,11,12>>]))
(* a table stored in the file: codes left-justified in 12 bits, and lengths *)
PefTab(C) ==
  HuffTab([l \in 1..16 |-> Cardinality({i \in 1..Len(C.lens) : C.lens[i] = l})],
          PefOrder(C.codes, C.lens))

CrwFirstSrc == <<
  [bits |-> <<0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<4, 3, 5, 6, 2, 7, 1, 8, 9, 0, 10, 11, 255>>],
  [bits |-> <<0, 2, 2, 3, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<3, 2, 4, 1, 5, 0, 6, 7, 9, 8, 10, 11, 255>>],
  [bits |-> <<0, 0, 6, 3, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<6, 5, 7, 4, 8, 3, 9, 2, 0, 10, 1, 11, 255>>] >>
CrwSecondSrc == <<
  [bits |-> <<0, 2, 2, 2, 1, 4, 2, 1, 2, 5, 1, 1, 0, 0, 0, 139>>,
     vals |-> <<3, 4, 2, 5, 1, 6, 7, 8, 18, 19, 17, 20, 9, 21, 34, 0,
               33, 22, 10, 240, 35, 23, 36, 49, 50, 24, 25, 51, 37, 65, 52, 66,
               53, 81, 54, 55, 56, 41, 121, 38, 26, 57, 86, 87, 40, 39, 82, 85,
               88, 67, 118, 89, 119, 84, 97, 249, 113, 120, 117, 150, 151, 73, 183, 83,
               215, 116, 182, 152, 71, 72, 149, 105, 153, 145, 250, 184, 104, 181, 185, 214,
               247, 216, 103, 70, 69, 148, 137, 248, 129, 213, 246, 180, 136, 177, 42, 68,
               114, 217, 135, 102, 212, 245, 58, 167, 115, 169, 168, 134, 98, 199, 101, 200,
               201, 161, 244, 209, 233, 90, 146, 133, 166, 231, 147, 232, 193, 198, 122, 100,
               225, 74, 106, 230, 179, 241, 211, 165, 138, 178, 154, 186, 132, 164, 99, 229,
               197, 243, 210, 196, 130, 170, 218, 228, 242, 202, 131, 163, 162, 195, 234, 194,
               226, 227, 255, 255>>],
  [bits |-> <<0, 2, 2, 1, 4, 1, 4, 1, 3, 3, 1, 0, 0, 0, 0, 140>>,
     vals |-> <<2, 3, 1, 4, 5, 18, 17, 6, 19, 7, 8, 20, 34, 9, 33, 0,
               35, 21, 49, 50, 10, 22, 240, 36, 51, 65, 66, 25, 23, 37, 24, 81,
               52, 67, 82, 41, 53, 97, 57, 113, 98, 54, 83, 38, 56, 26, 55, 129,
               39, 145, 121, 85, 69, 40, 114, 89, 161, 177, 68, 105, 84, 88, 209, 250,
               87, 225, 241, 185, 73, 71, 99, 106, 249, 86, 70, 168, 42, 74, 120, 153,
               58, 117, 116, 134, 101, 193, 118, 182, 150, 214, 137, 133, 201, 245, 149, 180,
               199, 247, 138, 151, 184, 115, 183, 216, 217, 135, 167, 122, 72, 130, 132, 234,
               244, 166, 197, 90, 148, 164, 198, 146, 195, 104, 181, 200, 228, 229, 230, 233,
               162, 163, 227, 194, 102, 103, 147, 170, 212, 213, 231, 248, 136, 154, 215, 119,
               196, 100, 226, 152, 165, 202, 218, 232, 243, 246, 169, 178, 179, 242, 210, 131,
               186, 211, 255, 255>>],
  [bits |-> <<0, 0, 6, 2, 1, 3, 3, 2, 5, 1, 2, 2, 8, 10, 0, 117>>,
     vals |-> <<4, 5, 3, 6, 2, 7, 1, 8, 9, 18, 19, 20, 17, 21, 10, 22,
               23, 240, 0, 34, 33, 24, 35, 25, 36, 50, 49, 37, 51, 56, 55, 52,
               53, 54, 57, 121, 87, 88, 89, 40, 86, 120, 39, 65, 41, 119, 38, 66,
               118, 153, 26, 85, 152, 151, 249, 72, 84, 150, 137, 71, 183, 73, 250, 117,
               104, 182, 103, 105, 185, 184, 216, 82, 215, 136, 181, 116, 81, 70, 217, 248,
               58, 214, 135, 69, 122, 149, 213, 246, 134, 180, 169, 148, 83, 42, 168, 67,
               245, 247, 212, 102, 167, 90, 68, 138, 201, 232, 200, 231, 154, 106, 115, 74,
               97, 199, 244, 198, 101, 233, 114, 230, 113, 145, 147, 166, 218, 146, 133, 98,
               243, 197, 178, 164, 132, 186, 100, 165, 179, 210, 129, 229, 211, 170, 196, 202,
               242, 177, 228, 209, 131, 99, 234, 195, 226, 130, 241, 163, 194, 161, 193, 227,
               162, 225, 255, 255>>] >>
CrwFirst == TLCEval([i \in 1..3 |-> Built(CrwFirstSrc[i])])
CrwSecond == TLCEval([i \in 1..3 |-> Built(CrwSecondSrc[i])])

(* the differences follow a 540-byte header and the block of low bits *)
CrwStream(C) == Unstuff(C.data, 540 + (IF C.lowbits THEN (C.w * C.h) \div 4 ELSE 0))
=============================================================================
