-------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* Every table up to MaxR x MaxC, with every way to cover it by cells that *)
(* the operations can reach, and from each of them every operation with    *)
(* every argument, accepted or not.  `vh tablemc` builds the table, with   *)
(* text in its cells and around it, does the operation, and compares the   *)
(* whole table with what the model says; then it undoes and redoes.        *)
(***************************************************************************)
EXTENDS Grid, Sequences, SequencesExt, TLC, Json
CONSTANTS MaxR, MaxC, MaxSize       \* most positions
VARIABLES rows, cols, cells

TMax2(a, b) == IF a > b THEN a ELSE b
Order(a, b) == a.r < b.r \/ (a.r = b.r /\ a.c < b.c)
Listed == SetToSortSeq(cells, Order)
Tagged == {[Listed[j] EXCEPT !.k = j] : j \in 1..Len(Listed)}     \* numbered in row-major order
Untag(S) == {[x EXCEPT !.k = 0] : x \in S}
Emit(op, ok, r, c, S) ==
   PrintT("@@C" \o ToJson([rows |-> rows, cols |-> cols, cells |-> Listed, op |-> op,
                           post |-> IF ok THEN <<[rows |-> r, cols |-> c, cells |-> SetToSortSeq(S, Order)]>> ELSE <<>>]))
Do(op, ok, r, c, S) ==
   /\ Emit(op, ok, r, c, S)
   /\ IF ok /\ r <= MaxR /\ c <= MaxC /\ r * c <= MaxSize THEN rows' = r /\ cols' = c /\ cells' = Untag(S) ELSE UNCHANGED <<rows, cols, cells>>

InsRow == \E i \in 0..(rows + 1) :
   Do([n |-> "irow", i |-> i], i <= rows, rows + 1, cols, IF i <= rows THEN InsRows(cols, Tagged, i) ELSE {})
InsCol == \E i \in 0..(cols + 1) :
   Do([n |-> "icol", i |-> i], i <= cols, rows, cols + 1, IF i <= cols THEN Flip(InsRows(rows, Flip(Tagged), i)) ELSE {})
DelRow == \E i \in 0..rows :
   LET ok == i < rows /\ rows > 1 IN Do([n |-> "drow", i |-> i], ok, rows - 1, cols, IF ok THEN DelRows(Tagged, i) ELSE {})
DelCol == \E i \in 0..cols :
   LET ok == i < cols /\ cols > 1 IN Do([n |-> "dcol", i |-> i], ok, rows, cols - 1, IF ok THEN Flip(DelRows(Flip(Tagged), i)) ELSE {})
Merge == \E r1 \in 0..rows, c1 \in 0..cols : \E r2 \in TMax2(0, r1 - 1)..rows, c2 \in TMax2(0, c1 - 1)..cols :
   LET ok == CanMerge(rows, cols, cells, r1, c1, r2, c2)
   IN Do([n |-> "mcell", r1 |-> r1, c1 |-> c1, r2 |-> r2, c2 |-> c2], ok, rows, cols,
         IF ok THEN MergeCells(Tagged, r1, c1, r2, c2) ELSE {})
Split == \E j \in 1..Len(Listed) : \E n \in 0..(Listed[j].rs + 1), m \in 0..(Listed[j].cs + 1) :
   LET x == CHOOSE y \in Tagged : y.k = j
       ok == CanSplit(x, n, m)
   IN Do([n |-> "scell", j |-> j, r |-> n, k |-> m], ok, rows, cols, IF ok THEN SplitCell(Tagged, x, n, m) ELSE {})

Init == /\ rows \in 1..MaxR /\ cols \in 1..MaxC /\ rows * cols <= MaxSize /\ cells = Fresh(rows, cols)
Next == InsRow \/ InsCol \/ DelRow \/ DelCol \/ Merge \/ Split
Spec == Init /\ [][Next]_<<rows, cols, cells>>
Inv == IsGrid(rows, cols, cells)
=============================================================================
