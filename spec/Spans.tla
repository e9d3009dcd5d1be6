------------------------------- MODULE Spans -------------------------------
(***************************************************************************)
(* Spans laid over a block of four characters (the third is an image) by a *)
(* highlighter: each sets some of two format fields on a range, anywhere,  *)
(* also beyond the end.  What a character shows in a field is what the     *)
(* last span covering it sets there, or else its own format.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS MaxSpans, Starts, Lens
VARIABLE sp
N == 4
Base == <<<<"x", "-">>, <<"x", "-">>, <<"-", "-">>, <<"-", "y">>>>
Vals == {"-", "x", "y"}
Covers(s, k) == s.a <= k - 1 /\ k - 1 < s.a + s.n
Field(ss, k, j, b) == FoldLeft(LAMBDA v, s : IF Covers(s, k) /\ s.f[j] # "-" THEN s.f[j] ELSE v, b, ss)
Show(ss) == [k \in 1..N |-> <<Field(ss, k, 1, Base[k][1]), Field(ss, k, 2, Base[k][2])>>]
\* For fields the document's own formats cannot have.
Bare(ss) == [k \in 1..N |-> <<Field(ss, k, 1, "-"), Field(ss, k, 2, "-")>>]
Add == /\ Len(sp) < MaxSpans
       /\ \E a \in Starts, n \in Lens, f \in Vals, g \in Vals :
            /\ sp' = Append(sp, [a |-> a, n |-> n, f |-> <<f, g>>])
            /\ PrintT("@@C" \o ToJson([spans |-> sp', want |-> Show(sp'), bare |-> Bare(sp')]))
Init == sp = <<>>
Next == Add
Spec == Init /\ [][Next]_sp
\* A span sets nothing outside its range, and nothing in a field it does not give.
Inv == sp = <<>> \/ LET s == Last(sp)  F == Front(sp) IN
       \A k \in 1..N, j \in 1..2 : Show(sp)[k][j] = IF Covers(s, k) /\ s.f[j] # "-" THEN s.f[j] ELSE Show(F)[k][j]
=============================================================================
