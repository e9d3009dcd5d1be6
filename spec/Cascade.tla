------------------------------ MODULE Cascade ------------------------------
(***************************************************************************)
(* Incremental highlighting.  A document is a list of lines.  After every  *)
(* edit, undo, redo and replacement the cached highlighting must be that   *)
(* of Highlight, however few blocks the library goes through.              *)
(*                                                                         *)
(* "cache" is the algorithm the library uses: it walks from the block of   *)
(* the edit and stops at a block that had a state and kept it.  Sound says *)
(* that this reaches everything; the real library replays each behaviour.  *)
(***************************************************************************)
EXTENDS Highlight, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxBlocks, Words
VARIABLES ts, cache, us, rs, hist
vars == <<ts, cache, us, rs, hist>>
NLc == "NL"
Flat(x) == FoldLeft(LAMBDA a, k : IF k = 1 THEN x[1] ELSE a \o <<NLc>> \o x[k], <<>>, [k \in 1..Len(x) |-> k])
Unflat(s) == FoldLeft(LAMBDA a, c : IF c = NLc THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, c)], <<<<>>>>, s)
BlockOf(x, p) == 1 + Len(SelectSeq(SubSeq(Flat(x), 1, p), LAMBDA c : c = NLc))   \* the block of position p
End(x) == Len(Flat(x))
Scratch(x) == FoldLeft(LAMBDA a, t : Append(a, HlAfter(t, IF a = <<>> THEN 0 ELSE Last(a))), <<>>, x)

\* Walk from block k: blocks whose cached state is -1 are new.
RECURSIVE Walk(_, _, _, _)
Walk(x, c, k, from) ==
  IF k > Len(x) THEN c
  ELSE LET s == HlAfter(x[k], IF k = 1 THEN 0 ELSE c[k - 1])
           d == [c EXCEPT ![k] = s]
       IN IF k > from /\ c[k] = s THEN d ELSE Walk(x, d, k + 1, from)

Splice(a, b, s) == SubSeq(Flat(ts), 1, a) \o s \o SubSeq(Flat(ts), b + 1, End(ts))
\* Positions a..b replaced by s: the first block of the edit stays, blocks within go, blocks s makes are new.
Edit(op, a, b, s) ==
  LET x == Unflat(Splice(a, b, s))
      first == BlockOf(ts, a)  gone == BlockOf(ts, b) - first
      new == Len(x) - (Len(ts) - gone)
      c == SubSeq(cache, 1, first) \o [k \in 1..new |-> -1] \o SubSeq(cache, first + gone + 1, Len(cache))
  IN /\ Len(x) <= MaxBlocks /\ x # ts
     /\ ts' = x /\ cache' = Walk(x, c, first, first)
     /\ us' = Append(us, ts) /\ rs' = <<>>
     /\ hist' = Append(hist, <<op, x, HlDoc(x)>>)
Sub(q, r, t) == [k \in 1..Len(t) |-> IF t[k] = q THEN r ELSE t[k]]
Whole(op, x) == /\ ts' = x /\ cache' = Scratch(x) /\ hist' = Append(hist, <<op, x, HlDoc(x)>>)

Type == \E p \in 0..End(ts), c \in {"a", "b", " "} : Edit([n |-> "ins", p |-> p, s |-> c], p, p, <<c>>)
Split == \E p \in 0..End(ts) : Edit([n |-> "blk", p |-> p], p, p, <<NLc>>)
Over == \E a \in 0..End(ts), b \in 0..End(ts), c \in {"a", "b"} : a < b /\ Edit([n |-> "over", a |-> a, b |-> b, s |-> c], a, b, <<c>>)
Cut == \E a \in 0..End(ts), b \in 0..End(ts) : a < b /\ Edit([n |-> "rem", a |-> a, b |-> b], a, b, <<>>)
Swap == \E q \in {"a", "b", " "}, r \in {"a", "b", " "} :
          LET x == [k \in 1..Len(ts) |-> Sub(q, r, ts[k])]
          IN x # ts /\ Whole([n |-> "repl", q |-> q, s |-> r], x) /\ us' = Append(us, ts) /\ rs' = <<>>
Undo == us # <<>> /\ Whole([n |-> "undo"], Last(us)) /\ us' = Front(us) /\ rs' = Append(rs, ts)
Redo == rs # <<>> /\ Whole([n |-> "redo"], Last(rs)) /\ rs' = Front(rs) /\ us' = Append(us, ts)
Start == UNION {[1..n -> Words] : n \in 1..MaxBlocks}
Init == ts \in Start /\ cache = Scratch(ts) /\ us = <<>> /\ rs = <<>> /\ hist = <<<<[n |-> "start"], ts, HlDoc(ts)>>>>
Next == /\ Len(hist) <= MaxOps
        /\ Type \/ Split \/ Over \/ Cut \/ Swap \/ Undo \/ Redo
        /\ Len(hist) < MaxOps \/ PrintT("@@C" \o ToJson(hist'))
Spec == Init /\ [][Next]_vars
Sound == cache = Scratch(ts)
WordsQ == {<<>>, <<"a">>, <<"b">>, <<" ">>}
=============================================================================
