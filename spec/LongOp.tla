------------------------------- MODULE LongOp -------------------------------
(***************************************************************************)
(* Long operations.  An operation runs in its own thread: it reports       *)
(* progress, then its work returns (a result, an error, a result that      *)
(* cannot be written down) or panics, and its end is recorded.  Anyone may *)
(* cancel it at any time, also between the return of its work and the      *)
(* record of its end, and may remove the finished operations.              *)
(* The first end wins and is the only one announced.                       *)
(*                                                                         *)
(* TLC prints every transition; `vh longopmc` performs the same steps with *)
(* operations it holds at these very points and compares what the manager  *)
(* answers and announces.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxOps, MaxDepth, Percents
VARIABLES ops, evs, path
vars == <<ops, evs, path>>

\* ph: run (working), ret (its work returned, the end is not yet recorded), stop; st: the status; p: progress;
\* out: what its work came to; known: the manager still lists it; res: a result can be had
New == [ph |-> "run", st |-> "Running", p |-> 0, out |-> "", known |-> TRUE, res |-> FALSE]
Clamp(v) == IF v < 0 THEN 0 ELSE IF v > 100 THEN 100 ELSE v

Do(a, o, e) ==
   /\ Len(path) < MaxDepth
   /\ ops' = o /\ evs' = evs \o e /\ path' = Append(path, a)
   /\ PrintT("@@C" \o ToJson([path |-> Append(path, a), ops |-> o, evs |-> evs \o e]))
\* The end of operation j, whose work came to out.
Ended(j, out) ==
  LET st == IF ops[j].st = "Running" THEN (IF out = "ok" THEN "Completed" ELSE "Failed") ELSE ops[j].st
  IN Do(<<IF out = "panic" THEN "panic" ELSE "end", j>>,
        [ops EXCEPT ![j] = [@ EXCEPT !.ph = "stop", !.out = out, !.st = st, !.res = (st = "Completed")]], <<<<st, j, 0>>>>)

Start == Len(ops) < MaxOps /\ Do(<<"start">>, Append(ops, New), <<<<"Started", Len(ops) + 1, 0>>>>)
\* The operation hands its callback around: it may be called when all is over.
Progress(j, v) == IF ops[j].st = "Running" THEN Do(<<"prog", j, v>>, [ops EXCEPT ![j].p = Clamp(v)], <<<<"Progress", j, Clamp(v)>>>>)
                                           ELSE Do(<<"prog", j, v>>, ops, <<>>)
Return(j, out) == ops[j].ph = "run" /\ Do(<<"ret", j, out>>, [ops EXCEPT ![j].ph = "ret", ![j].out = out], <<>>)
Panic(j) == ops[j].ph = "run" /\ Ended(j, "panic")
End(j) == ops[j].ph = "ret" /\ Ended(j, ops[j].out)
Cancel(j) == Do(<<"cancel", j>>, IF ops[j].known /\ ops[j].st = "Running" THEN [ops EXCEPT ![j].st = "Cancelled"] ELSE ops, <<>>)
Clean == ops # <<>> /\ Do(<<"clean">>, [j \in DOMAIN ops |-> [ops[j] EXCEPT !.known = @ /\ ops[j].st = "Running"]], <<>>)

Init == ops = <<>> /\ evs = <<>> /\ path = <<>>
Next == \/ Start \/ Clean
        \/ \E j \in DOMAIN ops : \/ Panic(j) \/ End(j) \/ Cancel(j)
                                 \/ \E v \in Percents : Progress(j, v)
                                 \/ \E out \in {"ok", "err", "badser"} : Return(j, out)
Spec == Init /\ [][Next]_vars
View == <<ops, Len(path) >= MaxDepth>>

Terminal == {"Completed", "Cancelled", "Failed"}
Of(j) == SelectSeq(evs, LAMBDA e : e[2] = j)
Inv == \A j \in DOMAIN ops :
   LET e == Of(j)  ends == {i \in DOMAIN e : e[i][1] \in Terminal}
   IN /\ e[1][1] = "Started" /\ Cardinality({i \in DOMAIN e : e[i][1] = "Started"}) = 1
      /\ Cardinality(ends) = (IF ops[j].ph = "stop" THEN 1 ELSE 0)
      /\ \A i \in ends : i = Len(e) /\ e[i][1] = ops[j].st
      /\ ops[j].res <=> ops[j].st = "Completed"
      /\ ops[j].ph = "stop" => ops[j].st # "Running"
      /\ ~ops[j].known => ops[j].st # "Running"
Stays == [][\A j \in DOMAIN ops : ops[j].st # "Running" => ops'[j].st = ops[j].st /\ ops'[j].p = ops[j].p /\ ops'[j].res = ops[j].res]_vars
PercentsQ == {-5, 50, 150}
=============================================================================
