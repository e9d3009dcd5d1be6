-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* A table of rows x cols positions, covered by cells.  A cell is          *)
(* [k, r, c, rs, cs]: who it is (0: a new one), its first row and column   *)
(* and how many it spans.  Each operation says which cells go, which stay  *)
(* with another place or span, and where new cells come.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
Rect(k, r, c, rs, cs) == [k |-> k, r |-> r, c |-> c, rs |-> rs, cs |-> cs]
Covers(x, r, c) == x.r <= r /\ r < x.r + x.rs /\ x.c <= c /\ c < x.c + x.cs
\* Every position in exactly one cell, and no cell outside: what a table always is.
IsGrid(rows, cols, cells) ==
   /\ \A x \in cells : x.r >= 0 /\ x.c >= 0 /\ x.rs >= 1 /\ x.cs >= 1 /\ x.r + x.rs <= rows /\ x.c + x.cs <= cols
   /\ \A r \in 0..(rows - 1), c \in 0..(cols - 1) : Cardinality({x \in cells : Covers(x, r, c)}) = 1
Fresh(rows, cols) == {Rect(0, r, c, 1, 1) : r \in 0..(rows - 1), c \in 0..(cols - 1)}
\* The mirror image, so that columns are rows.
Flip(cells) == {Rect(x.k, x.c, x.r, x.cs, x.rs) : x \in cells}

InsRows(cols, cells, i) ==
   LET moved == {IF x.r >= i THEN [x EXCEPT !.r = @ + 1] ELSE IF x.r + x.rs > i THEN [x EXCEPT !.rs = @ + 1] ELSE x : x \in cells}
   IN moved \cup {Rect(0, i, c, 1, 1) : c \in {d \in 0..(cols - 1) : \A x \in moved : ~Covers(x, i, d)}}
DelRows(cells, i) ==
   {IF x.r > i THEN [x EXCEPT !.r = @ - 1] ELSE IF x.r + x.rs > i THEN [x EXCEPT !.rs = @ - 1] ELSE x :
      x \in {y \in cells : ~(y.r = i /\ y.rs = 1)}}
InRange(x, r1, c1, r2, c2) == x.r <= r2 /\ r1 < x.r + x.rs /\ x.c <= c2 /\ c1 < x.c + x.cs
CanMerge(rows, cols, cells, r1, c1, r2, c2) ==
   /\ 0 <= r1 /\ r1 <= r2 /\ r2 < rows /\ 0 <= c1 /\ c1 <= c2 /\ c2 < cols
   /\ \A x \in cells : InRange(x, r1, c1, r2, c2) => x.rs = 1 /\ x.cs = 1
\* The top left cell takes the range; the others go, with what they contain.
MergeCells(cells, r1, c1, r2, c2) ==
   {IF x.r = r1 /\ x.c = c1 THEN [x EXCEPT !.rs = r2 - r1 + 1, !.cs = c2 - c1 + 1] ELSE x :
      x \in {y \in cells : InRange(y, r1, c1, r2, c2) => y.r = r1 /\ y.c = c1}}
CanSplit(x, n, m) == n >= 1 /\ m >= 1 /\ n <= x.rs /\ m <= x.cs /\ ~(x.rs = 1 /\ x.cs = 1)
\* n x m parts, as even as possible, the larger ones first; the first part is the cell itself.
Part(total, n, j) == total \div n + (IF j <= total - n * (total \div n) THEN 1 ELSE 0)
RECURSIVE PartAt(_, _, _)
PartAt(total, n, j) == IF j = 1 THEN 0 ELSE PartAt(total, n, j - 1) + Part(total, n, j - 1)
SplitCell(cells, x, n, m) ==
   (cells \ {x}) \cup {Rect(IF a = 1 /\ b = 1 THEN x.k ELSE 0, x.r + PartAt(x.rs, n, a), x.c + PartAt(x.cs, m, b),
                            Part(x.rs, n, a), Part(x.cs, m, b)) : a \in 1..n, b \in 1..m}
=============================================================================
