------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Searching (P11) and replacing (P12).  The text searched is the block    *)
(* texts joined by a newline.  o: options.  fl: for every character of the *)
(* text the sequence of characters it folds to; ql: the folded query.      *)
(* at: the atoms of the regular expression: <<set, "1", "+", "?" or "*">>; set     *)
(* <<"any">> meaning every character except the newline.                   *)
(***************************************************************************)
EXTENDS Nav

NLU == "U+000A"
Plainly(B) == LET s == Flat(B) IN [k \in 1..Len(s) |-> IF s[k] = NL THEN NLU ELSE s[k]]

\* Is the query found at p (0-based)?  The position after the match, or -1.
RECURSIVE Eat(_,_,_)
Eat(fl, q, p) ==
  IF q = <<>> THEN p
  ELSE IF p >= Len(fl) THEN -1
  ELSE LET c == fl[p + 1]
       IN IF Len(c) <= Len(q) /\ SubSeq(q, 1, Len(c)) = c THEN Eat(fl, SubSeq(q, Len(c) + 1, Len(q)), p + 1) ELSE -1

In(set, c) == IF set = <<"any">> THEN c # NLU ELSE c \in Range(set)
\* Leftmost, greedy.
RECURSIVE EatRx(_,_,_)
EatRx(s, at, p) ==
  IF at = <<>> THEN p
  ELSE IF Head(at)[2] = "1"
       THEN IF p < Len(s) /\ In(Head(at)[1], s[p + 1]) THEN EatRx(s, Tail(at), p + 1) ELSE -1
       ELSE LET lo == IF Head(at)[2] = "+" THEN 1 ELSE 0
                hi == IF Head(at)[2] = "?" THEN DMin(1, Len(s) - p) ELSE Len(s) - p
                m == CHOOSE m \in 0..hi :
                       /\ \A j \in 1..m : In(Head(at)[1], s[p + j])
                       /\ (m = hi \/ ~In(Head(at)[1], s[p + m + 1]))
                E == {k \in lo..m : EatRx(s, Tail(at), p + k) >= 0}
            IN IF E = {} THEN -1 ELSE EatRx(s, Tail(at), p + Max(E))

WholeWord(w, n, a, b) == LET E == {0, n} \cup {x[1] : x \in Range(w)} \cup {x[2] : x \in Range(w)}
                         IN a \in E /\ b \in E

RECURSIVE Scan(_,_,_,_,_)
\* f(p): end of the match at p or -1; ok(a,b): is it accepted; rx: a rejected match is skipped as a whole.
Scan(f(_), ok(_,_), rx, p, n) ==
  IF p >= n THEN <<>>
  ELSE LET e == f(p)
       IN IF e < 0 THEN Scan(f, ok, rx, p + 1, n)
          ELSE IF ok(p, e) THEN <<<<p, e - p>>>> \o Scan(f, ok, rx, e, n)
          ELSE Scan(f, ok, rx, IF rx THEN e ELSE p + 1, n)

Matches(B, op) ==
  LET s == Plainly(B)  n == Len(s)
      fl == IF op.o.cs THEN [k \in 1..n |-> <<s[k]>>] ELSE op.fl
      q  == IF op.o.cs THEN op.q ELSE op.ql
      ok(a, b) == ~op.o.ww \/ WholeWord(op.w, n, a, b)
      lit(p) == Eat(fl, q, p)
      reg(p) == EatRx(s, op.at, p)
  IN IF op.q = <<>> THEN <<>>
     ELSE IF op.o.rx THEN Scan(reg, ok, TRUE, 0, n)
     ELSE Scan(lit, ok, FALSE, 0, n)

Find(M, p, back) ==
  LET S == SelectSeq(M, LAMBDA m : IF back THEN m[1] < p ELSE m[1] >= p)
  IN IF S = <<>> THEN <<>> ELSE <<IF back THEN Last(S) ELSE S[1]>>

\* Only matches inside one block are replaced.
InBlock(B, m) == LET x == Loc(B, m[1]) IN x[2] + m[2] <= Len(B[x[1]].t) /\ x[2] < Len(B[x[1]].t)
Chosen(B, op) == LET M == SelectSeq(Matches(B, op), LAMBDA m : InBlock(B, m))
                 IN IF op.all \/ M = <<>> THEN M ELSE <<M[1]>>
\* From the right, so that positions stay valid; the replacement takes the
\* format of the character before it, as typed text does.
Replaced(B, M, s) ==
  FoldRight(LAMBDA m, X : LET D == DelRange(X, m[1], m[1] + m[2]) IN InsChars(D, m[1], s, Inherit(D, m[1])), M, B)
=============================================================================
