----------------------------- MODULE Highlight -----------------------------
(***************************************************************************)
(* Highlighting from scratch, for the highlighter of the harness: a state  *)
(* 0..2 that characters change, carried from block to block.  Each         *)
(* character shows <<tip, previous state>>.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

HlNext(s, c) == CASE c = "a" -> 1
                  [] c \in {"b", "."} -> 0
                  [] c = " " /\ s = 1 -> 2
                  [] OTHER -> s
\* States after each character of a block, starting from the state of the block before.
HlStates(t, p) == FoldLeft(LAMBDA a, c : Append(a, HlNext(IF a = <<>> THEN p ELSE Last(a), c)), <<>>, t)
HlTip(s, p) == IF s # 0 THEN s ELSE IF p = 2 THEN 7 ELSE 0
HlShown(t, p) == LET S == HlStates(t, p) IN [k \in 1..Len(t) |-> <<HlTip(S[k], p), p>>]
HlAfter(t, p) == IF t = <<>> THEN p ELSE Last(HlStates(t, p))
\* The whole document: what every block shows.
HlDoc(ts) == FoldLeft(LAMBDA a, t : <<Append(a[1], HlShown(t, a[2])), HlAfter(t, a[2])>>, <<<<>>, 0>>, ts)[1]
HlNone(ts) == [k \in 1..Len(ts) |-> [j \in 1..Len(ts[k]) |-> <<0, 0>>]]
=============================================================================
