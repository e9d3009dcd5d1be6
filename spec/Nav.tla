-------------------------------- MODULE Nav --------------------------------
(***************************************************************************)
(* Cursor movement (P10).  g: grapheme cluster boundaries of the text as   *)
(* document positions; w: its words as <<start, end>>; wc: for every       *)
(* position whether the character there is a word character.               *)
(***************************************************************************)
EXTENDS Doc

\* The block cursor queries and list operations act on: a position at the end
\* of a non-empty block is on its separator, which belongs to the next block.
CurBlock(B, p) == LET x == Loc(B, p)
                  IN IF x[2] = Len(B[x[1]].t) /\ x[2] > 0 /\ x[1] < Len(B) THEN x[1] + 1 ELSE x[1]

NextG(g, p) == LET S == {x \in Range(g) : x > p} IN IF S = {} THEN p ELSE Min(S)
PrevG(g, p) == LET S == {x \in Range(g) : x < p} IN IF S = {} THEN p ELSE Max(S)
\* No position is left inside a cluster: forward to its end.
Snap(B, g, p) == IF p >= EndPos(B) THEN p ELSE Min({x \in Range(g) : x >= p})

WordAt(B, w, p) ==
  LET k == CurBlock(B, p)  s == Starts(B)[k]  e == s + Len(B[k].t)  q == DMax(p, s)
      W == SelectSeq(w, LAMBDA x : s <= x[1] /\ x[2] <= e)
      I == {j \in 1..Len(W) : W[j][1] <= q /\ q < W[j][2]}
  IN IF I # {} THEN W[CHOOSE j \in I : TRUE]
     ELSE IF W # <<>> /\ Last(W)[2] = q THEN Last(W)
     ELSE <<p, p>>

RECURSIVE BackWord(_,_,_)
BackWord(B, w, p) == LET x == WordAt(B, w, p)
                     IN IF x[1] < x[2] THEN x[1] ELSE IF p = 0 THEN 0 ELSE BackWord(B, w, p - 1)
RECURSIVE Steps(_,_,_,_)
Steps(f(_,_), g, p, n) == IF n = 0 THEN p ELSE Steps(f, g, f(g, p), n - 1)

\* Where a movement leads, before clamping and snapping.
Target(B, g, w, wc, o, p, n) ==
  LET S == Starts(B)  end == EndPos(B)  k == CurBlock(B, p)
      prev == IF S[k] >= 2 THEN S[CurBlock(B, S[k] - 2)] ELSE 0
      next == S[k] + Len(B[k].t) + 1
  IN CASE o = "NoMove" -> p
       [] o = "Start" -> 0
       [] o = "End" -> end
       [] o \in {"NextCharacter", "Right"} -> Steps(NextG, g, p, n)
       [] o \in {"PreviousCharacter", "Left"} -> Steps(PrevG, g, p, n)
       [] o \in {"StartOfBlock", "StartOfLine"} -> S[k]
       [] o \in {"EndOfBlock", "EndOfLine"} -> S[k] + Len(B[k].t)
       [] o \in {"NextBlock", "Down"} -> next
       [] o \in {"PreviousBlock", "Up"} -> prev
       [] o \in {"NextWord", "EndOfWord", "WordRight"} ->
            LET e == WordAt(B, w, p)[2]
                scan == DMin(DMax(end - p, 0), 64)
                I == {j \in p..(p + scan - 1) : wc[j + 1]}
            IN IF e # p THEN e ELSE IF I = {} THEN p + scan ELSE WordAt(B, w, Min(I))[2]
       [] o \in {"PreviousWord", "StartOfWord", "WordLeft"} ->
            LET s == WordAt(B, w, p)[1]
            IN IF s < p THEN s ELSE IF p > 0 THEN BackWord(B, w, p - 1) ELSE 0

\* Set the position t: clamped, then snapped; the anchor stays only if asked to.
Place(B, g, t, keep, anchor) ==
  LET c == DMin(t, EndPos(B))  q == Snap(B, g, c)
  IN <<q, IF keep /\ anchor # c THEN anchor ELSE q>>

Selected(B, w, y, p) ==
  LET k == CurBlock(B, p)  s == Starts(B)[k]
  IN CASE y = "Document" -> <<EndPos(B), 0>>
       [] y \in {"Block", "Line"} -> <<s + Len(B[k].t), s>>
       [] OTHER -> LET x == WordAt(B, w, p) IN <<x[2], x[1]>>
=============================================================================
