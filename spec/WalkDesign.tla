----------------------------- MODULE WalkDesign -----------------------------
(* How the reader walks the directories: depth first with a stack, at most  *)
(* DEPTH levels deep, at most CHAIN directories in the chain, and at most   *)
(* BUDGET reads in all.  Checked over all small graphs: the walk ends, it   *)
(* never reads more than its budget, and where no limit cuts it off it      *)
(* finds what the meaning of the graph (Walk) says.                         *)
EXTENDS Walk
CONSTANTS N, K, DEPTH, CHAIN, BUDGET
VARIABLES g, stack, next, links, reads, found, cut, status
vars == <<g, stack, next, links, reads, found, cut, status>>
(* stack of <<directory, index of the next pointer to follow>> *)

Init == /\ g \in Graphs(N, K)
        /\ stack = <<>> /\ next = 1 /\ links = 0 /\ reads = 0 /\ found = 0 /\ cut = FALSE
        /\ status = "walking"

Top == stack[Len(stack)]
(* reading directory d on top of the stack s, unless the budget is used up *)
Enter(d, s, n, l) ==
  IF reads = BUDGET
  THEN /\ status' = "refused"
       /\ UNCHANGED <<g, stack, next, links, reads, found, cut>>
  ELSE /\ reads' = reads + 1
       /\ stack' = Append(s, <<d, 1>>)
       /\ found' = IF found = 0 /\ g[d].make THEN d ELSE found
       /\ next' = n /\ links' = l
       /\ UNCHANGED <<g, cut, status>>
Link == /\ status = "walking" /\ stack = <<>> /\ next # 0 /\ links < CHAIN
        /\ Enter(next, stack, g[next].next, links + 1)
More == stack # <<>> /\ Top[2] <= Len(g[Top[1]].subs)
Onward == [stack EXCEPT ![Len(stack)] = <<@[1], @[2] + 1>>]
Descend == /\ status = "walking" /\ More /\ Len(stack) <= DEPTH
           /\ Enter(g[Top[1]].subs[Top[2]], Onward, next, links)
Skip == /\ status = "walking" /\ More /\ Len(stack) > DEPTH
        /\ stack' = Onward
        /\ cut' = TRUE
        /\ UNCHANGED <<g, next, links, reads, found, status>>
Pop == /\ status = "walking" /\ stack # <<>> /\ ~More
       /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
       /\ UNCHANGED <<g, next, links, reads, found, cut, status>>
End == /\ status = "walking" /\ stack = <<>> /\ (next = 0 \/ links = CHAIN)
       /\ status' = "done"
       /\ cut' = (cut \/ next # 0)
       /\ UNCHANGED <<g, stack, next, links, reads, found>>
Next == Link \/ Descend \/ Skip \/ Pop \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == reads <= BUDGET /\ Len(stack) <= DEPTH + 1 /\ links <= CHAIN
Right == status = "done" => AnswerOK(g, found) /\ (cut = FALSE => found = First(g))
Ends == <>(status # "walking")
=============================================================================
