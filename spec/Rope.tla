-------------------------------- MODULE Rope --------------------------------
(***************************************************************************)
(* The rope and its offset index: one text holding every block, and a      *)
(* table saying where each block starts.  Here it is what it stands for: a *)
(* list of items, each a block with its characters or the one-character    *)
(* anchor of a table; the rope is their concatenation with a line feed     *)
(* between neighbours, and every lookup is a function of the list.         *)
(* TLC prints every transition; `vh ropemc` replays them into the real     *)
(* rope helpers and compares rope, index and every lookup.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MaxItems, MaxText, MaxDepth, Texts

VARIABLES it,    \* the items: [k |-> "B" or "T", i |-> id, t |-> characters]
          next,  \* next id
          path   \* operations so far
vars == <<it, next, path>>
Live == [j \in 1..Len(it) |-> <<it[j].k, it[j].t>>]

SumL(s) == FoldLeft(LAMBDA a, c : a + c, 0, s)
W(c) == CASE c = "U+00E9" -> 2 [] c = "U+FFFC" -> 3 [] OTHER -> 1
Bytes(t) == FoldLeft(LAMBDA a, c : a + W(c), 0, t)
RECURSIVE StartB(_,_)
StartB(s, j) == IF j = 1 THEN 0 ELSE StartB(s, j - 1) + Bytes(s[j-1].t) + 1
RECURSIVE StartC(_,_)
StartC(s, j) == IF j = 1 THEN 0 ELSE StartC(s, j - 1) + Len(s[j-1].t) + 1
TotalB(s) == IF s = <<>> THEN 0 ELSE StartB(s, Len(s)) + Bytes(s[Len(s)].t)
TotalC(s) == IF s = <<>> THEN 0 ELSE StartC(s, Len(s)) + Len(s[Len(s)].t)
Join(s) == IF s = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, x : Append(a, "U+000A") \o x.t, s[1].t, Tail(s))

\* What the index must answer.
Starts(s) == [j \in 1..Len(s) |-> StartB(s, j)]
AtByte(s, b) == IF s = <<>> \/ b > TotalB(s) THEN 0
                ELSE CHOOSE j \in 1..Len(s) : StartB(s, j) <= b /\ (j = Len(s) \/ b < StartB(s, j + 1))
AtChar(s, p) == LET q == IF p > TotalC(s) THEN TotalC(s) ELSE p
                    j == CHOOSE j \in 1..Len(s) : StartC(s, j) <= q /\ (j = Len(s) \/ q < StartC(s, j + 1))
                IN <<s[j].i, q - StartC(s, j), StartC(s, j)>>
NoTables(s) == \A j \in 1..Len(s) : s[j].k = "B"
View(s) == [rope |-> Join(s), kinds |-> [j \in 1..Len(s) |-> s[j].k], ids |-> [j \in 1..Len(s) |-> s[j].i],
            texts |-> [j \in 1..Len(s) |-> s[j].t],
            starts |-> Starts(s), total |-> TotalB(s), chars |-> [j \in 1..Len(s) |-> StartC(s, j)],
            at |-> [b \in 1..(TotalB(s) + 2) |-> AtByte(s, b - 1)],
            \* byte offset in its item of every character offset (and one beyond)
            cb |-> [j \in 1..Len(s) |-> [c \in 1..(Len(s[j].t) + 2) |->
                       Bytes(SubSeq(s[j].t, 1, IF c - 1 > Len(s[j].t) THEN Len(s[j].t) ELSE c - 1))]],
            find |-> IF s # <<>> /\ NoTables(s) THEN [p \in 1..(TotalC(s) + 2) |-> AtChar(s, p - 1)] ELSE <<>>]

Do(op, s2, n2) ==
  /\ Len(path) < MaxDepth
  /\ Len(s2) <= MaxItems /\ \A j \in 1..Len(s2) : Len(s2[j].t) <= MaxText
  /\ it' = s2 /\ next' = n2 /\ path' = Append(path, op)
  /\ PrintT("@@C" \o ToJson([path |-> Append(path, op), pre |-> View(it), post |-> View(s2)]))

Cut(s, a, b) == SubSeq(s, a, b)
Blk(i, t) == [k |-> "B", i |-> i, t |-> t]
Tbl(i) == [k |-> "T", i |-> i, t |-> <<"U+FFFC">>]
Blocks == {j \in 1..Len(it) : it[j].k = "B"}

AppendBlock == \E t \in Texts : Do([n |-> "app", i |-> next, t |-> t], Append(it, Blk(next, t)), next + 1)
AppendEmpty == Do([n |-> "appe", i |-> next], Append(it, Blk(next, <<>>)), next + 1)
AppendTable == Do([n |-> "appt", i |-> next], Append(it, Tbl(next)), next + 1)
PlaceAt == \E j \in 1..Len(it), t \in Texts :
   Do([n |-> "insat", b |-> StartB(it, j) + Bytes(it[j].t), i |-> next, t |-> t],
      Cut(it, 1, j) \o <<Blk(next, t)>> \o Cut(it, j + 1, Len(it)), next + 1)
Ins == \E j \in Blocks, t \in Texts : \E o \in 0..Len(it[j].t) :
   Do([n |-> "ins", i |-> it[j].i, o |-> Bytes(Cut(it[j].t, 1, o)), t |-> t],
      [it EXCEPT ![j].t = Cut(@, 1, o) \o t \o Cut(@, o + 1, Len(@))], next)
Del == \E j \in Blocks : \E a \in 0..Len(it[j].t) : \E b \in a..Len(it[j].t) :
   Do([n |-> "del", i |-> it[j].i, a |-> Bytes(Cut(it[j].t, 1, a)), b |-> Bytes(Cut(it[j].t, 1, b))],
      [it EXCEPT ![j].t = Cut(@, 1, a) \o Cut(@, b + 1, Len(@))], next)
Split == \E j \in Blocks : \E o \in 0..Len(it[j].t) :
   Do([n |-> "split", i |-> it[j].i, o |-> Bytes(Cut(it[j].t, 1, o)), w |-> next],
      Cut(it, 1, j - 1) \o <<Blk(it[j].i, Cut(it[j].t, 1, o)), Blk(next, Cut(it[j].t, o + 1, Len(it[j].t)))>>
        \o Cut(it, j + 1, Len(it)), next + 1)
Merge == \E j, k \in Blocks : j < k /\ \E a \in 0..Len(it[j].t) : \E b \in 0..Len(it[k].t) :
   Do([n |-> "merge", i |-> it[j].i, a |-> Bytes(Cut(it[j].t, 1, a)), e |-> it[k].i, b |-> Bytes(Cut(it[k].t, 1, b))],
      Cut(it, 1, j - 1) \o <<Blk(it[j].i, Cut(it[j].t, 1, a) \o Cut(it[k].t, b + 1, Len(it[k].t)))>>
        \o Cut(it, k + 1, Len(it)), next)
Repl == \E j \in Blocks, t \in Texts :
   Do([n |-> "repl", i |-> it[j].i, t |-> t], [it EXCEPT ![j].t = t], next)
Drop == \E j \in Blocks :
   /\ TRUE
   /\ Do([n |-> "rem", i |-> it[j].i], Cut(it, 1, j - 1) \o Cut(it, j + 1, Len(it)), next)
Anchor == \E j \in Blocks, after \in BOOLEAN :
   Do([n |-> "anchor", i |-> next, b |-> it[j].i, after |-> after],
      IF after THEN Cut(it, 1, j) \o <<Tbl(next)>> \o Cut(it, j + 1, Len(it))
      ELSE Cut(it, 1, j - 1) \o <<Tbl(next)>> \o Cut(it, j, Len(it)), next + 1)
Unanchor == \E j \in 1..Len(it) :
   /\ it[j].k = "T"
   /\ Do([n |-> "unanchor", i |-> it[j].i], Cut(it, 1, j - 1) \o Cut(it, j + 1, Len(it)), next)
\* Nothing happens to a document for a block it does not have.
Unknown == \E n \in {"ins", "del", "split", "repl", "rem", "unanchor"} :
   Do([n |-> n, i |-> 999, o |-> 0, a |-> 0, b |-> 1, w |-> 998, t |-> <<"a">>], it, next)
Reset == it # <<>> /\ Do([n |-> "reset"], <<>>, next)

Init == it = <<>> /\ next = 1 /\ path = <<>>
Next == \/ AppendBlock \/ AppendEmpty \/ AppendTable \/ PlaceAt \/ Ins \/ Del \/ Split \/ Merge \/ Repl \/ Drop
        \/ Anchor \/ Unanchor \/ Unknown \/ Reset
Spec == Init /\ [][Next]_vars

\* On the model: starts are strictly increasing, ids are unique, and each character belongs to one item.
Inv == /\ \A j \in 1..(Len(it) - 1) : StartB(it, j) < StartB(it, j + 1)
       /\ \A j, k \in 1..Len(it) : it[j].i = it[k].i => j = k
       /\ Len(Join(it)) = TotalC(it)

TextsQ == {<<>>, <<"a">>, <<"U+00E9">>, <<"U+00E9", "a">>}
=============================================================================
