-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* The document: what it is and what every call means.                    *)
(*                                                                         *)
(* A document is a sequence of blocks.  A block is a record                *)
(*   [i |-> id, t |-> sequence of characters, f |-> one format per         *)
(*    character, b |-> vector of paragraph attributes, l |-> list id]      *)
(* Positions count characters and one separator between neighbouring       *)
(* blocks, so a document of n blocks has positions 0 .. EndPos.            *)
(*                                                                         *)
(* The same operators are used by the exhaustively checked model (DocMC)   *)
(* and by the trace specification (DocTrace).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS OverSet(_,_),    \* character format overlaid with all given fields
          OverMerge(_,_),  \* ... with the fields merge_char_format carries
          InsFmt(_),       \* the format insert_formatted_text gives
          DefF,            \* the default character format
          IsImg(_),        \* is this the format of an image (which is one character of the text)?
          Bare(_)          \* the format without the image

FreshB == -9               \* id of a block the operation creates
FreshL == -7               \* id of a list the operation creates
NL     == "/n"             \* the separator in flattened texts

Str(s) == FoldLeft(LAMBDA a, c : a \o c, "", s)
DMin(a, b) == IF a <= b THEN a ELSE b
DMax(a, b) == IF a >= b THEN a ELSE b

\* Start position of every block, followed by (end position + 1).
Starts(B) == FoldLeft(LAMBDA a, b : Append(a, a[Len(a)] + Len(b.t) + 1), <<0>>, B)
EndPos(B) == Starts(B)[Len(B) + 1] - 1

Flat(B)  == IF B = <<>> THEN <<>>
            ELSE FoldLeft(LAMBDA a, b : (Append(a, NL)) \o b.t, B[1].t, Tail(B))
FlatF(B) == IF B = <<>> THEN <<>>
            ELSE FoldLeft(LAMBDA a, b : (Append(a, 0)) \o b.f, B[1].f, Tail(B))

\* The block a position lies in and the offset in it; a block owns its end.
Loc(B, p) == LET S == Starts(B)
                 k == CHOOSE k \in 1..Len(B) : S[k] <= p /\ (k = Len(B) \/ p < S[k+1])
             IN <<k, DMin(p - S[k], Len(B[k].t))>>

\* Remove the range [a, b): text between, formats with it; blocks inside
\* disappear and the tail of the last one joins the first.
DelRange(B, a, b) ==
  IF a = b THEN B ELSE
  LET x == Loc(B, a)  y == Loc(B, b)
      h == B[x[1]]    z == B[y[1]]
      j == [h EXCEPT !.t = SubSeq(h.t, 1, x[2]) \o SubSeq(z.t, y[2] + 1, Len(z.t)),
                     !.f = SubSeq(h.f, 1, x[2]) \o SubSeq(z.f, y[2] + 1, Len(z.f))]
  IN SubSeq(B, 1, x[1] - 1) \o <<j>> \o SubSeq(B, y[1] + 1, Len(B))

InsChars(B, p, s, f) ==
  LET x == Loc(B, p)  h == B[x[1]]
  IN [B EXCEPT ![x[1]] =
        [h EXCEPT !.t = SubSeq(h.t, 1, x[2]) \o s \o SubSeq(h.t, x[2] + 1, Len(h.t)),
                  !.f = SubSeq(h.f, 1, x[2]) \o [k \in 1..Len(s) |-> f] \o SubSeq(h.f, x[2] + 1, Len(h.f))]]

\* Typed text takes the format of the character before it in the block.
\* (What follows an image takes the format of the text the image stands in, which nothing shows.)
AnyF == -1
Inherit(B, p) == LET x == Loc(B, p)  h == B[x[1]]
                 IN IF x[2] = 0 THEN DefF ELSE IF IsImg(h.f[x[2]]) THEN AnyF ELSE h.f[x[2]]

SplitAt(B, p) ==
  LET x == Loc(B, p)  h == B[x[1]]
      u == [h EXCEPT !.t = SubSeq(h.t, 1, x[2]), !.f = SubSeq(h.f, 1, x[2])]
      v == [h EXCEPT !.i = FreshB, !.t = SubSeq(h.t, x[2] + 1, Len(h.t)), !.f = SubSeq(h.f, x[2] + 1, Len(h.f))]
  IN SubSeq(B, 1, x[1] - 1) \o <<u, v>> \o SubSeq(B, x[1] + 1, Len(B))

NoBF == [k \in 1..16 |-> "-"]
\* insert_list: an empty item of a new list after the block of position p.
AddItem(B, p) ==
  LET x == Loc(B, p)
  IN SubSeq(B, 1, x[1]) \o <<[i |-> FreshB, t |-> <<>>, f |-> <<>>, b |-> NoBF, l |-> FreshL]>>
       \o SubSeq(B, x[1] + 1, Len(B))

\* Character formatting of the range [a, b).
FormatRange(B, a, b, d, Over(_,_)) ==
  LET S == Starts(B)
  IN [k \in 1..Len(B) |->
        [B[k] EXCEPT !.f = [j \in 1..Len(B[k].f) |->
            IF S[k] + j - 1 >= a /\ S[k] + j - 1 < b THEN Over(B[k].f[j], d) ELSE B[k].f[j]]]]

\* Blocks touched by the selection [a, b], ends included.
Touched(B, a, b) == LET S == Starts(B)
                    IN { k \in 1..Len(B) : S[k] <= b /\ S[k] + Len(B[k].t) >= a }
OverB(v, d) == [k \in 1..Len(v) |-> IF d[k] # "-" THEN d[k] ELSE v[k]]
FormatBlocks(B, a, b, d) ==
  [k \in 1..Len(B) |-> IF k \in Touched(B, a, b) THEN [B[k] EXCEPT !.b = OverB(B[k].b, d)] ELSE B[k]]
JoinList(B, a, b) ==
  [k \in 1..Len(B) |-> IF k \in Touched(B, a, b) THEN [B[k] EXCEPT !.l = FreshL] ELSE B[k]]
SetList(B, id, ls) == [k \in 1..Len(B) |-> IF B[k].i = id THEN [B[k] EXCEPT !.l = ls] ELSE B[k]]

(***************************************************************************)
(* Cursors                                                                 *)
(***************************************************************************)
Adjust(q, ep, rm, ad) == IF q <= ep THEN q
                         ELSE IF q <= ep + rm THEN ep + ad
                         ELSE q - rm + ad
AdjustAll(C, ep, rm, ad) ==
  [k \in 1..Len(C) |-> IF C[k][1] < 0 THEN C[k]
                       ELSE <<Adjust(C[k][1], ep, rm, ad), Adjust(C[k][2], ep, rm, ad)>>]
\* After an edit: everybody is moved along, the editing cursor goes to np.
MoveCursors(C, me, ep, rm, ad, np) == [AdjustAll(C, ep, rm, ad) EXCEPT ![me] = <<np, np>>]
ClampAll(C, e) ==
  [k \in 1..Len(C) |-> IF C[k][1] < 0 THEN C[k] ELSE <<DMin(C[k][1], e), DMin(C[k][2], e)>>]

\* The smallest region by which two flat texts differ: <<at, removed, added>>.
Diff(x, y) ==
  LET m == DMin(Len(x), Len(y))
      p == CHOOSE k \in 0..m : /\ \A j \in 1..k : x[j] = y[j]
                               /\ (k = m \/ x[k+1] # y[k+1])
      s == CHOOSE k \in 0..(m - p) : /\ \A j \in 0..(k-1) : x[Len(x) - j] = y[Len(y) - j]
                                     /\ (k = m - p \/ x[Len(x) - k] # y[Len(y) - k])
  IN <<p, Len(x) - p - s, Len(y) - p - s>>

\* Identity of created blocks and lists is not specified, only that they are new.
SameId(e, a, old) == IF e = FreshB THEN a \notin old ELSE a = e
=============================================================================
