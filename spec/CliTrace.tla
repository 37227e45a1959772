------------------------------ MODULE CliTrace ------------------------------
(* The command line tool: what it does with its arguments, the input it is  *)
(* given and the place it shall write to, checked on recorded runs.         *)
(*   args    number of arguments, only the first two count                  *)
(*   input   "good", "bad" (cannot be decoded or developed)                 *)
(*   out     "free" (can be created or replaced), "closed" (cannot be       *)
(*           created), "full" (can be created but not written)              *)
(*   status  exit status; usage, error: whether stdout has the usage, or a  *)
(*           line that starts with ERROR                                    *)
(*   said    the lines it printed                                          *)
(*   facts   names, size, levels and crops of the image                     *)
(*   touched what changed among the files around: 1 the output, 2 others    *)
(*   ppm     the bytes of the output; w, h, pix: the full size picture      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLES c, y, bad
vars == <<c, y, bad>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Header(w, h) == <<80, 54, 32>> \o Digits(w) \o <<32>> \o Digits(h) \o <<32, 50, 53, 53, 10>>
Touched(C) == {C.touched[i] : i \in 1..Len(C.touched)}

RECURSIVE Join(_,_)
Join(q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE ", ") \o ToString(q[i]) \o Join(q, i+1)
List(q) == "[" \o Join(q, 1) \o "]"
Named(what, a, b) == what \o " \"" \o a \o "\" model \"" \o b \o "\""
Facts(F) == { "Image size is " \o ToString(F.size[1]) \o "x" \o ToString(F.size[2]),
              "black levels are " \o List(F.black), "white levels are " \o List(F.white), "crops are " \o List(F.crops) }
            \cup (IF F.names = <<>> THEN {} ELSE {Named("Found camera", F.names[1], F.names[2]), Named("Found clean named camera", F.names[3], F.names[4])})
Unsaid(C) == Facts(C.facts) \ {C.said[i] : i \in 1..Len(C.said)}

(* what has to come of it *)
Outcome(C) == IF C.args = 0 THEN "usage"
              ELSE IF C.input = "bad" THEN "error"
              ELSE IF C.out = "free" THEN "picture" ELSE "error"
Judge(C) ==
  CASE Outcome(C) = "usage" ->
         IF C.status # 1 THEN <<"status", C.status, "without arguments">>
         ELSE IF ~C.usage THEN <<"no usage">>
         ELSE IF Touched(C) # {} THEN <<"changed files without arguments">> ELSE <<>>
    [] Outcome(C) = "error" ->
         IF C.status # 2 THEN <<"status", C.status, "after an error">>
         ELSE IF ~C.error THEN <<"no line with ERROR">>
         ELSE IF Touched(C) # {} THEN <<"changed files after an error">> ELSE <<>>
    [] OTHER ->
         IF C.status # 0 THEN <<"status", C.status>>
         ELSE IF C.error THEN <<"reported an error">>
         ELSE IF Touched(C) # {1} THEN <<"changed files", Touched(C)>>
         ELSE IF SubSeq(C.ppm, 1, Len(Header(C.w, C.h))) # Header(C.w, C.h) THEN <<"header", SubSeq(C.ppm, 1, 16), "for", C.w, C.h>>
         ELSE IF Len(C.ppm) # Len(Header(C.w, C.h)) + 3*C.w*C.h THEN <<"length", Len(C.ppm), "for", C.w, C.h>>
         ELSE IF Unsaid(C) # {} THEN <<"did not print", CHOOSE l \in Unsaid(C) : TRUE>>
         ELSE <<>>
(* then row by row *)
Row(C, r) ==
  LET h0 == Len(Header(C.w, C.h))
      D == {i \in 3*C.w*r + 1 .. 3*C.w*(r+1) : C.ppm[h0 + i] # C.pix[i]}
  IN IF D = {} THEN <<>> ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN <<"sample", i - 1, "is", C.ppm[h0 + i], "not", C.pix[i]>>
Rows(C) == IF Outcome(C) = "picture" /\ Judge(C) = <<>> THEN C.h ELSE 0
Init == c \in 1..Len(Cases) /\ y = 0 /\ bad = Judge(Cases[c])
Next == /\ bad = <<>> /\ y < Rows(Cases[c])
        /\ bad' = Row(Cases[c], y) /\ y' = y + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
Report == [case |-> Cases[c].id, bad |-> bad]
=============================================================================
