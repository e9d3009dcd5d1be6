------------------------------- MODULE Inline -------------------------------
(***************************************************************************)
(* A block's content as its readers see it: a list of items, each a        *)
(* character with its format or an image with its own.  An image stands    *)
(* in the text as its replacement character ("S"), or - in texts that      *)
(* have none for it - between two characters ("Z").  From text, runs and   *)
(* image anchors the real functions must find exactly these items: where   *)
(* each starts, how many there are, what each segment holds; and image     *)
(* anchors must follow their items through insertions, deletions and       *)
(* splits.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxItems, Kinds
VARIABLE it    \* items <<c, format>>
W(x) == CASE x[1] = "U+00E9" -> 2 [] x[1] = "S" -> 3 [] x[1] = "Z" -> 0 [] OTHER -> 1
Start(s, k) == FoldLeft(LAMBDA a, x : a + W(x), 0, SubSeq(s, 1, k - 1))     \* byte start of item k
Total(s) == Start(s, Len(s) + 1)
IsImg(x) == x[1] \in {"S", "Z"}
Before(s, at) == Len(SelectSeq([k \in 1..Len(s) |-> Start(s, k)], LAMBDA b : b < at))   \* items starting before byte at
PutItem(s, at, x) == SubSeq(s, 1, Before(s, at)) \o <<x>> \o SubSeq(s, Before(s, at) + 1, Len(s))
\* the items starting in [a, b) go
DeleteAt(s, a, b) == SubSeq(s, 1, Before(s, a)) \o SubSeq(s, Before(s, b) + 1, Len(s))
Offsets(s) == LET I == SelectSeq([k \in 1..Len(s) |-> <<k, Start(s, k)>>], LAMBDA z : IsImg(s[z[1]])) IN [j \in 1..Len(I) |-> I[j][2]]
Bounds(s) == {Start(s, k) : k \in 1..(Len(s) + 1)}
Emit(op, post) == PrintT("@@C" \o ToJson([op |-> op, pre |-> it, post |-> post]))

Ins == \E x \in Kinds, at \in Bounds(it) :
   /\ Len(it) < MaxItems /\ x[1] # "S" /\ x[1] # "Z"
   /\ it' = PutItem(it, at, x) /\ Emit([n |-> "ins", at |-> at, k |-> W(x)], <<Offsets(it')>>)
\* Images are put in by hand, anywhere.
Put == \E x \in Kinds, k \in 0..Len(it) :
   /\ Len(it) < MaxItems /\ IsImg(x)
   /\ it' = SubSeq(it, 1, k) \o <<x>> \o SubSeq(it, k + 1, Len(it))
   /\ Emit([n |-> "view"], <<[k2 \in 1..(Len(it) + 1) |-> Start(it, k2)]>>)
Del == \E a, b \in Bounds(it) :
   /\ a <= b /\ it' = DeleteAt(it, a, b)
   /\ Emit([n |-> "del", a |-> a, b |-> b], <<Offsets(it'), <<Len(Offsets(it)) - Len(Offsets(it'))>>>>)
Split == \E at \in Bounds(it) :
   LET L == SubSeq(it, 1, Before(it, at))  R == SubSeq(it, Before(it, at) + 1, Len(it))
   IN it' \in {L, R} /\ Emit([n |-> "split", at |-> at], <<Offsets(L), Offsets(R)>>)
Capture == \E a, b \in 0..Total(it) :
   /\ a <= b /\ UNCHANGED it
   /\ LET I == SelectSeq([k \in 1..Len(it) |-> k], LAMBDA k : IsImg(it[k]) /\ a <= Start(it, k) /\ Start(it, k) < b)
      IN Emit([n |-> "capture", a |-> a, b |-> b], <<[j \in 1..Len(I) |-> Start(it, I[j])], [j \in 1..Len(I) |-> it[I[j]][2]]>>)
View == /\ UNCHANGED it
        /\ Emit([n |-> "view"], <<[k \in 1..(Len(it) + 1) |-> Start(it, k)]>>)
Init == it = <<>>
Next == Ins \/ Put \/ Del \/ Split \/ Capture \/ View
Spec == Init /\ [][Next]_it
Inv == Len(it) <= MaxItems
KindsQ == {<<"a", 0>>, <<"a", 2>>, <<"U+00E9", 1>>, <<"S", 2>>, <<"Z", 1>>}
KindsD == {<<"a", 0>>, <<"a", 2>>, <<"U+00E9", 1>>, <<"U+00E9", 2>>, <<"S", 2>>, <<"S", 1>>, <<"Z", 1>>}
=============================================================================
