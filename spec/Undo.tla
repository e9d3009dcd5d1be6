-------------------------------- MODULE Undo --------------------------------
(* The undo manager: named stacks, nested groups, merging, failing commands. *)
(* TLC explores every history of at most MaxAtoms commands and MaxDepth      *)
(* calls; every transition is printed and replayed into the real             *)
(* UndoRedoManager with recording commands ("vh undomc").                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxAtoms, MaxStacks, MaxDepth, Kinds

VARIABLES
  st,     \* existing stack id -> [u: entries, last on top; r: entries, last on top]
  next,   \* the id the next new stack gets
  comp,   \* the open group: [on, sid, a: its commands so far, starts: where each nested group began]
  kinds,  \* kind of each command made so far: "p" plain, "m" merges with "m", "n" agrees to merge but refuses
  path,   \* the calls that led here (history; hidden by the view)
  d
vars == <<st, next, comp, kinds, path, d>>
Live == <<st, next, comp, kinds>>

None == -1
Sid(s) == IF s = None THEN 0 ELSE s
NoComp == [on |-> FALSE, sid |-> 0, a |-> <<>>, starts |-> <<>>]
Empty == [u |-> <<>>, r |-> <<>>]
N == Len(kinds)

\* An entry is one undo step: a single command (commands merged into it in order) or a group.
Single(a) == [c |-> FALSE, a |-> <<a>>]

Init == /\ st = (0 :> Empty) /\ next = 1 /\ comp = NoComp /\ kinds = <<>> /\ path = <<>> /\ d = 0

SMap(f) == [i \in 1..Cardinality(DOMAIN f) |->
             LET id == SetToSortSeq(DOMAIN f, <)[i] IN
             [id |-> id, u |-> [k \in DOMAIN f[id].u |-> f[id].u[k].a], r |-> [k \in DOMAIN f[id].r |-> f[id].r[k].a]]]

\* One call: its operation, result, the member calls it makes in order, and the state after it.
\* calls is a sequence of <<atom, "u" or "r">>.
Step(op, ok, calls, st2, next2, comp2, kinds2) ==
  /\ d < MaxDepth
  /\ st' = st2 /\ next' = next2 /\ comp' = comp2 /\ kinds' = kinds2 /\ d' = d + 1
  /\ path' = Append(path, op)
  /\ PrintT("@@C" \o ToJson([p |-> path', ok |-> ok, calls |-> calls, st |-> SMap(st2), next |-> next2,
                             open |-> IF comp2.on THEN 1 ELSE 0]))

Fail(op) == Step(op, FALSE, <<>>, st, next, comp, kinds)
Same(op) == Step(op, TRUE, <<>>, st, next, comp, kinds)

Sids == {None} \cup 0..MaxStacks

Add(s, k) ==
  LET op == [n |-> "add", s |-> s, k |-> k]  a == N + 1  ks == Append(kinds, k)  t == Sid(s) IN
  /\ N < MaxAtoms
  /\ IF comp.on
       THEN IF comp.sid # t THEN Step(op, FALSE, <<>>, st, next, comp, ks)
            ELSE Step(op, TRUE, <<>>, st, next, [comp EXCEPT !.a = Append(@, a)], ks)
     ELSE IF t \notin DOMAIN st THEN Step(op, FALSE, <<>>, st, next, comp, ks)
     ELSE LET u == st[t].u
              mrg == /\ u # <<>> /\ ~Last(u).c /\ k = "m" /\ kinds[Head(Last(u).a)] = "m"
              u2 == IF mrg THEN [u EXCEPT ![Len(u)].a = Append(@, a)] ELSE Append(u, Single(a))
          IN Step(op, TRUE, <<>>, [st EXCEPT ![t] = [u |-> u2, r |-> <<>>]], next, comp, ks)

Calls(as, what) == [i \in 1..Len(as) |-> <<as[i], what>>]

\* f: the command that fails if called now (0: none).
Undo(s, f) ==
  LET op == [n |-> "undo", s |-> s, f |-> f]  t == Sid(s) IN
  IF t \notin DOMAIN st THEN f = 0 /\ Fail(op)
  ELSE IF st[t].u = <<>> THEN f = 0 /\ Same(op)
  ELSE LET e == Last(st[t].u)  IN
       /\ f \in {0} \cup ToSet(e.a)
       /\ IF f # 0 THEN Fail(op)
          ELSE Step(op, TRUE, Calls(Reverse(e.a), "u"),
                    [st EXCEPT ![t] = [u |-> Front(@.u), r |-> Append(@.r, e)]], next, comp, kinds)

Redo(s, f) ==
  LET op == [n |-> "redo", s |-> s, f |-> f]  t == Sid(s) IN
  IF t \notin DOMAIN st THEN f = 0 /\ Fail(op)
  ELSE IF st[t].r = <<>> THEN f = 0 /\ Same(op)
  ELSE LET e == Last(st[t].r)  IN
       /\ f \in {0} \cup ToSet(e.a)
       /\ IF f # 0 THEN Fail(op)
          ELSE Step(op, TRUE, Calls(e.a, "r"),
                    [st EXCEPT ![t] = [u |-> Append(@.u, e), r |-> Front(@.r)]], next, comp, kinds)

Begin(s) ==
  LET op == [n |-> "begin", s |-> s]  t == Sid(s) IN
  /\ Len(comp.starts) < 3
  /\ IF t \notin DOMAIN st \/ (comp.on /\ comp.sid # t) THEN Fail(op)
     ELSE Step(op, TRUE, <<>>, st, next,
               [on |-> TRUE, sid |-> t, a |-> comp.a, starts |-> Append(comp.starts, Len(comp.a))], kinds)

End ==
  LET op == [n |-> "end"] IN
  IF ~comp.on THEN Same(op)
  ELSE IF Len(comp.starts) > 1 THEN Step(op, TRUE, <<>>, st, next, [comp EXCEPT !.starts = Front(@)], kinds)
  ELSE LET st2 == IF comp.a = <<>> THEN st
                  ELSE [st EXCEPT ![comp.sid] = [u |-> Append(@.u, [c |-> TRUE, a |-> comp.a]), r |-> <<>>]]
       IN Step(op, TRUE, <<>>, st2, next, NoComp, kinds)

Cancel(f) ==
  LET op == [n |-> "cancel", f |-> f] IN
  IF ~comp.on THEN f = 0 /\ Same(op)
  ELSE LET b == Last(comp.starts)  mem == SubSeq(comp.a, b + 1, Len(comp.a)) IN
       /\ f \in {0} \cup ToSet(mem)
       /\ Step(op, TRUE, Calls(SelectSeq(Reverse(mem), LAMBDA x : x # f), "u"), st, next,
               IF Len(comp.starts) = 1 THEN NoComp
               ELSE [comp EXCEPT !.starts = Front(@), !.a = SubSeq(@, 1, b)], kinds)

Clear(s) == Step([n |-> "clear", s |-> s], TRUE, <<>>, IF s \in DOMAIN st THEN [st EXCEPT ![s] = Empty] ELSE st,
                 next, comp, kinds)
ClearAll == Step([n |-> "clearall"], TRUE, <<>>, [i \in DOMAIN st |-> Empty], next, NoComp, kinds)
New == /\ next <= MaxStacks
       /\ Step([n |-> "new"], TRUE, <<>>, st @@ (next :> Empty), next + 1, comp, kinds)
Delete(s) ==
  LET op == [n |-> "del", s |-> s] IN
  IF s = 0 \/ s \notin DOMAIN st \/ (comp.on /\ comp.sid = s) THEN Fail(op)
  ELSE Step(op, TRUE, <<>>, [i \in DOMAIN st \ {s} |-> st[i]], next, comp, kinds)

Next ==
  \/ \E s \in Sids, k \in Kinds : Add(s, k)
  \/ \E s \in Sids, f \in 0..N : Undo(s, f) \/ Redo(s, f)
  \/ \E s \in Sids : Begin(s)
  \/ End \/ ClearAll \/ New
  \/ \E f \in 0..N : Cancel(f)
  \/ \E s \in 0..MaxStacks : Clear(s) \/ Delete(s)

Spec == Init /\ [][Next]_vars

(* What the property says, on the model. *)
RECURSIVE Flat(_)
Flat(es) == IF es = <<>> THEN <<>> ELSE Head(es).a \o Flat(Tail(es))
All == LET ids == SetToSortSeq(DOMAIN st, <)
           RECURSIVE G(_)
           G(i) == IF i > Len(ids) THEN comp.a ELSE Flat(st[ids[i]].u) \o Flat(st[ids[i]].r) \o G(i + 1)
       IN G(1)
OneOwner == Cardinality(ToSet(All)) = Len(All)              \* a command is on one stack only
InOrder == \A id \in DOMAIN st :                            \* undo order is the reverse of execution order
             LET s == Flat(st[id].u) \o Flat(Reverse(st[id].r)) IN \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Sound == /\ 0 \in DOMAIN st /\ \A id \in DOMAIN st : id < next
         /\ comp.on => comp.sid \in DOMAIN st
         /\ \A id \in DOMAIN st : \A e \in ToSet(st[id].u \o st[id].r) : e.a # <<>>
Inv == OneOwner /\ InOrder /\ Sound
=============================================================================
