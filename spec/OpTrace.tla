------------------------------- MODULE OpTrace -------------------------------
(***************************************************************************)
(* Judges recorded histories of imports and exports through the public     *)
(* handle: what is_done, try_result, wait and the two event paths say of   *)
(* an operation, and what the document holds meanwhile.  When the          *)
(* operation ends is the library's choice (a cancellation may come too     *)
(* late); everything else follows.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.LOG)
PROP == IOEnv.PROP
Want(p) == PROP = "ALL" \/ PROP = p

VARIABLES l,
          ops,  \* per operation: n, c (content imported), len (paragraphs), bad (cannot succeed), creq (cancel asked for),
                \* out ("?", "ok", "cancelled", "failed"), fin (what poll_events said of its end, -1: nothing yet), cfin (on_change), prog
          cur,  \* content of the document
          rst   \* imports completed so far, resets seen by polling, by listening
vars == <<l, ops, cur, rst>>
T1(ok, p, tag) == IF ok THEN {} ELSE {<<p, tag>>}
Code(out) == CASE out = "ok" -> 0 [] out = "cancelled" -> 1 [] OTHER -> 2
Out(code) == CASE code = 0 -> "ok" [] code = 1 -> "cancelled" [] OTHER -> "failed"
Import(o) == o.n # "docx"

\* What an observation of operation o's end may say, and the operation afterwards.
Possible(o, k) == /\ o.out \in {"?", k}
                  /\ k = "cancelled" => o.creq
                  /\ k = "ok" => ~o.bad
                  /\ k = "failed" => o.bad
\* Events in order, by one path (f: the field that remembers the end).
RECURSIVE Heard(_,_,_)
Heard(os, es, f) ==     \* <<operations, tags, resets>>
  IF es = <<>> THEN <<os, {}, 0>>
  ELSE LET e == Head(es)
           bad == e[1] # "R" /\ e[2] \notin DOMAIN os
           o  == IF e[1] = "R" \/ bad THEN <<>> ELSE os[e[2]]
           k  == IF e[1] = "F" THEN Out(e[3]) ELSE "?"
           \* the end may be known from an event before anyone asks
           ok == CASE e[1] = "R" -> TRUE
                   [] bad -> FALSE
                   [] e[1] = "P" -> o[f] = -1 /\ e[3] \in 0..100
                   [] OTHER -> o[f] = -1 /\ Possible(o, k)
           os1 == IF ok /\ e[1] = "F" THEN [os EXCEPT ![e[2]] = [@ EXCEPT !.out = k, ![f] = e[3]]] ELSE os
           r  == Heard(os1, Tail(es), f)
       IN <<r[1], r[2] \cup T1(ok, "P19", IF e[1] = "P" THEN "progress" ELSE "end-event"), r[3] + (IF e[1] = "R" THEN 1 ELSE 0)>>

Line ==
  LET x == Log[l]  op == x.op  res == x.res  st == x.st
      o0 == CASE op.n = "start" -> <<>>
              [] op.n \in {"md", "html"} -> Append(ops, [n |-> op.n, c |-> op.c, len |-> op.len, bad |-> FALSE, creq |-> FALSE, was |-> cur, out |-> "?", fin |-> -1, cfin |-> -1, held |-> {}])
              [] op.n = "docx" -> Append(ops, [n |-> op.n, c |-> -1, len |-> op.len, bad |-> op.bad, creq |-> FALSE, was |-> cur, out |-> "?", fin |-> -1, cfin |-> -1, held |-> {}])
              [] op.n = "cancel" -> IF ops[op.j].out = "?" THEN [ops EXCEPT ![op.j].creq = TRUE] ELSE ops
              [] OTHER -> ops
      h1 == Heard(o0, st.ev, "fin")
      h2 == Heard(h1[1], st.cb, "cfin")
      o1 == h2[1]
      asked == op.n \in {"try", "wait"}
      tells == asked /\ res.k # "none"
      o2 == IF tells /\ Possible(o1[op.j], res.k) THEN [o1 EXCEPT ![op.j].out = res.k] ELSE o1
      before == IF op.n = "start" THEN {} ELSE {j \in DOMAIN ops : Import(ops[j]) /\ ops[j].out = "ok"}
      now == {j \in DOMAIN o2 : Import(o2[j]) /\ o2[j].out = "ok"}
      fresh == {j \in now \ before : o2[j].held = {}}
      \* is_done says it is over, for the first time, and nothing has said how: the document shows it
      o3 == IF op.n = "done" /\ res.k = "yes" /\ o2[op.j].out = "?" /\ o2[op.j].held = {} THEN [o2 EXCEPT ![op.j].held = IF st.quiet THEN Range(st.t) ELSE {-1}] ELSE o2
      late == {j \in DOMAIN o2 \cap DOMAIN ops : Import(ops[j]) /\ ops[j].held \notin {{}, {-1}} /\ ops[j].out = "?" /\ o2[j].out # "?"}
      c0 == IF op.n = "start" THEN 0 ELSE IF op.n = "edit" THEN op.c ELSE cur
      \* an operation is_done has reported, without saying how it ended
      dim == {j \in DOMAIN o2 : Import(o2[j]) /\ o2[j].out = "?" /\ o2[j].held = {}}
      c1 == IF fresh # {} THEN o2[CHOOSE j \in fresh : \A k \in fresh : k <= j].c ELSE c0
      \* (different imports may have the same text)
      holds == Range(st.t) \cap (IF dim = {} THEN {c1} ELSE {c0} \cup {o2[j].c : j \in dim})
      r0 == IF op.n = "start" THEN <<0, 0>> ELSE rst
      r1 == <<r0[1] + h1[3], r0[2] + h2[3]>>
      most == Cardinality({j \in DOMAIN o2 : Import(o2[j]) /\ o2[j].out \in {"ok", "?"}})
      V == h1[2] \cup h2[2]
        \cup T1(asked => (IF res.k = "none" THEN op.n = "try" /\ (op.j \notin DOMAIN ops \/ ops[op.j].out = "?") ELSE Possible(o1[op.j], res.k)), "P19", "outcome")
        \cup T1(tells /\ res.k = "ok" => res.v = o1[op.j].len, "P19", "result")
        \cup T1(op.n = "done" /\ ops[op.j].out # "?" /\ ops[op.j].fin # -1 /\ ops[op.j].cfin # -1 => res.k = "yes", "P19", "is_done")
        \cup T1(r1[1] <= most /\ r1[2] <= most, "P19", "reset-event")
        \cup T1(op.n = "settle" => \A j \in DOMAIN o2 : o2[j].fin # -1 /\ o2[j].cfin # -1, "P19", "end-not-announced")
        \cup T1(op.n = "settle" => r1[1] = Cardinality(now) /\ r1[2] = Cardinality(now), "P19", "reset-event")
        \cup T1(st.quiet => holds # {}, "P19", "content")
        \cup T1(\A j \in late : (IF o2[j].out = "ok" THEN o2[j].c ELSE o2[j].was) \in o2[j].held, "P19", "content")
        \cup T1(st.quiet /\ fresh # {} /\ op.n # "edit" => ~st.u, "P19", "undo-after-import")
        \cup T1(st.in, "P19", "cursor-outside")
        \cup T1(op.n = "edit" => res.k = "ok", "P19", "undo-after-edit")
  IN /\ ops' = o3 /\ cur' = (IF st.quiet /\ holds # {} THEN CHOOSE t \in holds : TRUE ELSE c1) /\ rst' = r1
     /\ \A v \in V : ~Want(v[1]) \/ PrintT(<<"@@V", v[1], x.tr, l, v[2]>>)

Init == l = 1 /\ ops = <<>> /\ cur = 0 /\ rst = <<0, 0>>
Next == \/ l <= Len(Log) /\ l' = l + 1 /\ Line
        \/ /\ l = Len(Log) + 1 /\ l' = l + 1 /\ UNCHANGED <<ops, cur, rst>>
           /\ PrintT(<<"@@END", Len(Log)>>)
Spec == Init /\ [][Next]_vars
=============================================================================
