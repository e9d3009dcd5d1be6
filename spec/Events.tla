------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Delivery of events.  Every edit appends events to the document's log.   *)
(* Listeners subscribed with on_change get them synchronously before the   *)
(* call returns, each in the order of the log; poll_events hands out what  *)
(* was not handed out before, independently.  A listener may itself call   *)
(* the document: what it does happens there and then, including the        *)
(* delivery of the events of its own edits.  A dropped subscription gets   *)
(* nothing more, not even the rest of the batch being delivered.           *)
(*                                                                         *)
(* TLC prints every transition with the whole delivery history it implies; *)
(* `vh eventsmc` performs the same calls and compares what arrived where.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxSubs, MaxDepth, MaxEdits, Nested
VARIABLES s, path
vars == <<s, path>>

\* s.n: events so far; s.p: events handed out by polling; s.e: edits so far;
\* s.subs: listeners [on, arm] where arm is what it does at its next event;
\* s.got: what each listener got; s.polls: what each poll returned; s.reads: edits seen by reads inside listeners
Size == [ins |-> 2, blk |-> 4, quiet |-> 0]
RECURSIVE Act(_,_,_), Deliver(_,_,_)
\* Work left: a sequence of <<event, listener>>.
Deliver(t, work, me) ==
  IF work = <<>> THEN t
  ELSE LET e == work[1][1]  j == work[1][2]
       IN IF ~t.subs[j].on THEN Deliver(t, Tail(work), me)
          ELSE LET a  == t.subs[j].arm
                   t1 == [t EXCEPT !.got[j] = Append(@, e), !.subs[j].arm = <<"none">>]
               IN Deliver(IF a[1] = "none" THEN t1 ELSE Act(t1, a, j), Tail(work), me)
Act(t, a, me) ==
  CASE a[1] \in {"ins", "blk", "quiet"} ->
         LET k == Size[a[1]]
             live == SelectSeq([j \in 1..Len(t.subs) |-> j], LAMBDA j : t.subs[j].on)
             m == Len(live)
             work == [x \in 1..(k * m) |-> <<t.n + 1 + (x - 1) \div m, live[x - m * ((x - 1) \div m)]>>]
         IN Deliver([t EXCEPT !.n = @ + k, !.e = IF k > 0 THEN Append(@, a[1]) ELSE @], work, me)
    [] a[1] = "poll" -> [t EXCEPT !.polls = Append(@, <<t.p, t.n>>), !.p = t.n]
    [] a[1] = "read" -> [t EXCEPT !.reads = Append(@, Len(t.e))]
    [] a[1] = "sub" -> IF Len(t.subs) < MaxSubs
                       THEN [t EXCEPT !.subs = Append(@, [on |-> TRUE, arm |-> <<"none">>]), !.got = Append(@, <<>>)] ELSE t
    [] a[1] = "drop" -> IF a[2] <= Len(t.subs) THEN [t EXCEPT !.subs[a[2]] = [on |-> FALSE, arm |-> <<"none">>]] ELSE t
    [] a[1] = "arm" -> [t EXCEPT !.subs[a[2]].arm = a[3]]

Do(a) == LET t == Act(s, a, 0) IN
   /\ Len(path) < MaxDepth
   /\ s' = t /\ path' = Append(path, a)
   /\ PrintT("@@C" \o ToJson([path |-> Append(path, a), e |-> t.e, n |-> t.n, got |-> t.got, polls |-> t.polls, reads |-> t.reads]))
Init == s = [n |-> 0, p |-> 0, e |-> <<>>, subs |-> <<>>, got |-> <<>>, polls |-> <<>>, reads |-> <<>>] /\ path = <<>>
Next == \/ Len(s.e) < MaxEdits /\ \E a \in {"ins", "blk", "quiet"} : Do(<<a>>)
        \/ Do(<<"poll">>)
        \/ Len(s.subs) < MaxSubs /\ Do(<<"sub">>)
        \/ \E j \in 1..Len(s.subs) : s.subs[j].on /\
             \/ Do(<<"drop", j>>)
             \/ \E a \in Nested : s.subs[j].arm = <<"none">> /\ Do(<<"arm", j, a>>)
Spec == Init /\ [][Next]_vars
View == <<IF s.n - s.p > 4 THEN 4 ELSE s.n - s.p, s.subs, IF path = <<>> THEN <<>> ELSE Last(path)[1], Len(path)>>

\* Nobody gets an event twice, nobody gets one that did not happen, and a listener without nested edits gets them in order.
Inv == /\ \A j \in 1..Len(s.got) : /\ Cardinality(Range(s.got[j])) = Len(s.got[j])
                                   /\ Range(s.got[j]) \subseteq 1..s.n
       /\ \A k \in 2..Len(s.polls) : s.polls[k-1][2] = s.polls[k][1]
       /\ s.p <= s.n
NestedQ == {<<"ins">>, <<"blk">>, <<"poll">>, <<"read">>, <<"sub">>, <<"drop", 1>>, <<"drop", 2>>, <<"drop", 3>>}
=============================================================================
