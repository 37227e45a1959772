------------------------------ MODULE Workers -------------------------------
(* How one image is worked on in parallel: the rows are cut into chunks,    *)
(* each idle worker takes any chunk that is left, and goes through its      *)
(* cells in order, carrying a state (the dither seed, the predictor) that   *)
(* starts from the row itself.  Checked for all schedules: the result is    *)
(* the one of a single worker.  With SHARED the state is one for all        *)
(* workers; TLC has to find the schedule that shows it.                     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS ROWS, COLS, CHUNK, WORKERS, SHARED
VARIABLES out, left, work, acc
vars == <<out, left, work, acc>>
M == 7
In(r, c) == (3*r + 2*c + 1) % M
Seed(r) == (r + 2) % M
Mix(s, x) == (2*s + x + 1) % M
Cell(s, x) == (s + 3*x) % M

RECURSIVE State(_, _)
State(r, c) == IF c = 0 THEN Seed(r) ELSE Mix(State(r, c-1), In(r, c-1))
Sequential == [r \in 0..ROWS-1 |-> [c \in 0..COLS-1 |-> Cell(State(r, c), In(r, c))]]

Chunks == {k \in 0..ROWS-1 : k % CHUNK = 0}
Idle == <<0, 0, 0, 0>>            \* <<1 if busy, last row, row, column>>
Last(k) == IF k + CHUNK > ROWS THEN ROWS - 1 ELSE k + CHUNK - 1
Init == /\ out = [r \in 0..ROWS-1 |-> [c \in 0..COLS-1 |-> M]]
        /\ left = Chunks
        /\ work = [w \in 1..WORKERS |-> Idle]
        /\ acc = [w \in 0..WORKERS |-> 0]
Own(w) == IF SHARED THEN 0 ELSE w
Take(w) == /\ work[w] = Idle /\ left # {}
           /\ \E k \in left :
                /\ left' = left \ {k}
                /\ work' = [work EXCEPT ![w] = <<1, Last(k), k, 0>>]
                /\ acc' = [acc EXCEPT ![Own(w)] = Seed(k)]
           /\ UNCHANGED out
Step(w) == /\ work[w] # Idle
           /\ LET r == work[w][3]
                  c == work[w][4]
                  s == acc[Own(w)]
              IN /\ out' = [out EXCEPT ![r][c] = Cell(s, In(r, c))]
                 /\ IF c + 1 < COLS
                    THEN /\ work' = [work EXCEPT ![w] = <<1, @[2], r, c+1>>]
                         /\ acc' = [acc EXCEPT ![Own(w)] = Mix(s, In(r, c))]
                    ELSE IF r < work[w][2]
                    THEN /\ work' = [work EXCEPT ![w] = <<1, @[2], r+1, 0>>]
                         /\ acc' = [acc EXCEPT ![Own(w)] = Seed(r+1)]
                    ELSE /\ work' = [work EXCEPT ![w] = Idle]
                         /\ acc' = [acc EXCEPT ![Own(w)] = 0]
           /\ UNCHANGED left
Next == \E w \in 1..WORKERS : Take(w) \/ Step(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == left = {} /\ \A w \in 1..WORKERS : work[w] = Idle
(* every cell is written by one worker only, and ends up as if there were one *)
Apart == \A v, w \in 1..WORKERS : v # w /\ work[v] # Idle /\ work[w] # Idle => work[v][3] # work[w][3]
Same == Done => out = Sequential
Ends == <>Done
=============================================================================
