-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Format runs.  A block's runs stand for a list with one format per byte  *)
(* (0 = no run there); every operation on runs is an operation on that     *)
(* list.  TLC prints every transition, `vh runsmc` replays it into the     *)
(* real functions on the runs the list stands for, and compares: the       *)
(* result must be exactly the runs - sorted, non-empty, disjoint and       *)
(* coalesced - that the new list stands for.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxLen, MaxIns, MaxSplice
VARIABLE v
DMin2(a, b) == IF a < b THEN a ELSE b
Formats == 0..2
Cut(s, a, b) == SubSeq(s, a + 1, b)         \* bytes [a, b)
Emit(op, post) == PrintT("@@C" \o ToJson([op |-> op, pre |-> v, post |-> post]))

RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Seqs(n - 1), x \in Formats}

\* Inserted bytes take the format of the byte before them.
Insert(s, at, n) == Cut(s, 0, at) \o [k \in 1..n |-> IF at = 0 THEN 0 ELSE s[at]] \o Cut(s, at, Len(s))
Delete(s, a, b) == Cut(s, 0, a) \o Cut(s, b, Len(s))
Splice(s, a, b, w) == Cut(s, 0, a) \o w \o Cut(s, b, Len(s))
Only(s, a, b) == [k \in 1..Len(s) |-> IF k > a /\ k <= b THEN s[k] ELSE 0]
Runs(s) == LET cut(k) == k = 1 \/ s[k] # s[k-1] IN Cardinality({k \in 1..Len(s) : s[k] # 0 /\ cut(k)})

Ins == \E at \in 0..Len(v), n \in 0..MaxIns :
   /\ Len(v) + n <= MaxLen
   /\ v' = Insert(v, at, n) /\ Emit([n |-> "ins", at |-> at, k |-> n], <<v'>>)
Del == \E a \in 0..Len(v) : \E b \in a..Len(v) :
   /\ v' = Delete(v, a, b) /\ Emit([n |-> "del", a |-> a, b |-> b], <<v'>>)
Spl == \E a \in 0..Len(v) : \E b \in a..DMin2(Len(v), a + MaxSplice) : \E w \in Seqs(b - a) :
   /\ v' = Splice(v, a, b, w) /\ Emit([n |-> "splice", a |-> a, b |-> b, w |-> w], <<v'>>)
Split == \E at \in 0..Len(v) :
   /\ Emit([n |-> "split", at |-> at], <<Cut(v, 0, at), Cut(v, at, Len(v))>>)
   /\ (v' = Cut(v, 0, at) \/ v' = Cut(v, at, Len(v)))
Capture == \E a \in 0..Len(v) : \E b \in a..Len(v) :
   /\ UNCHANGED v /\ Emit([n |-> "capture", a |-> a, b |-> b], <<Only(v, a, b)>>)
\* The same list in pieces: cut at every place of C, coalesced it is as before.
Coalesce == \E C \in SUBSET (1..(Len(v) - 1)) :
   /\ UNCHANGED v /\ Emit([n |-> "coalesce", cuts |-> SetToSortSeq(C, <)], <<v>>)
\* Moving what starts at or after t: allowed where no run is cut by t; a move back needs room.
Shift == \E t \in 0..Len(v), d \in (-2)..2 :
   /\ IF t = 0 \/ t = Len(v) THEN TRUE ELSE v[t] # v[t+1] \/ v[t] = 0
   /\ IF d < 0 THEN t + d >= 0 /\ \A k \in (t + d + 1)..t : v[k] = 0 ELSE TRUE
   /\ UNCHANGED v
   /\ Emit([n |-> "shift", t |-> t, d |-> d],
           <<IF d >= 0 THEN Cut(v, 0, t) \o [k \in 1..d |-> 0] \o Cut(v, t, Len(v)) ELSE Delete(v, t + d, t)>>)

Init == v = <<>> /\ Emit([n |-> "coalesce", cuts |-> <<>>], <<v>>)
Next == Ins \/ Del \/ Spl \/ Split \/ Capture \/ Coalesce \/ Shift
Spec == Init /\ [][Next]_v
Inv == Len(v) <= MaxLen
\* Inserting never makes a run, deleting never makes more than it finds.
Mono == [][\A z \in {v'} : Len(z) > Len(v) \/ Len(z) = Len(v) \/ Runs(z) <= Runs(v)]_v
=============================================================================
