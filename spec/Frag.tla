-------------------------------- MODULE Frag --------------------------------
(***************************************************************************)
(* Fragments: copying a selection and inserting it (P16).                  *)
(*                                                                         *)
(* A fragment is a sequence of <<t, f, b, l>>: the text, its formats, the  *)
(* paragraph attributes and the attributes of the list - the last two only *)
(* if the block was covered up to and including its paragraph break.       *)
(***************************************************************************)
EXTENDS Views

NoL == <<>>
ListRec(L, id) == LET S == SelectSeq(L, LAMBDA x : x.i = id)
                  IN IF S = <<>> THEN NoL ELSE <<S[1].y, S[1].d, S[1].pre, S[1].suf>>

Piece(s, k, a, b) ==
  LET h == s.B[k]  S == Starts(s.B)  n == Len(h.t)
      x == DMax(a - S[k], 0)
      y == IF b < S[k] + n THEN b - S[k] ELSE n
      full == x = 0 /\ y = n /\ (b > S[k] + n \/ k = Len(s.B))
  IN [t |-> SubSeq(h.t, x + 1, y), f |-> SubSeq(h.f, x + 1, y),
      b |-> IF full THEN h.b ELSE NoBF, l |-> IF full /\ h.l # -1 THEN ListRec(s.L, h.l) ELSE NoL]
\* The fragment of the selection [a, b).
Extract(s, a, b) ==
  IF a = b THEN <<>> ELSE
  LET S == Starts(s.B)
      ks == SelectSeq([k \in 1..Len(s.B) |-> k], LAMBDA k : S[k] + Len(s.B[k].t) >= a /\ S[k] < b)
  IN [j \in 1..Len(ks) |-> Piece(s, ks[j], a, b)]
\* The fragment of lines of plain text.
PlainFrag(ls) == [k \in 1..Len(ls) |-> [t |-> ls[k], f |-> [j \in 1..Len(ls[k]) |-> DefF], b |-> NoBF, l |-> NoL]]
FragText(F) == IF F = <<>> THEN <<>>
               ELSE FoldLeft(LAMBDA a, x : Append(a, NLU) \o x.t, F[1].t, Tail(F))

\* A block that carries nothing but text: its text joins the text around it.
Inline(x) == x.l = NoL /\ \A k \in 1..15 : x.b[k] = "-" \/ (k \in {7, 8} /\ x.b[k] = "=0")

(***************************************************************************)
(* Lists while inserting: consecutive items of one style and indent belong *)
(* to one list.  g: <<open lists by indent, lists created so far>>; a new  *)
(* list is FreshN(k), its attributes the k-th created.                     *)
(***************************************************************************)
FreshN(k) == -100 - k
Open(g, l, y, d) ==
  LET a == g[1]  p == IF Len(a) <= d THEN a \o [j \in 1..(d + 1 - Len(a)) |-> <<>>] ELSE a
  IN <<[p EXCEPT ![d + 1] = <<l, y>>], g[2]>>
\* The list of the next block: <<list, g'>>
NextList(g, l) ==
  IF l = NoL THEN <<-1, <<<<>>, g[2]>>>>
  ELSE LET d == l[2]  a == SubSeq(g[1], 1, DMin(Len(g[1]), d + 1))
       IN IF Len(a) > d /\ a[d + 1] # <<>> /\ a[d + 1][2] = l[1] THEN <<a[d + 1][1], <<a, g[2]>>>>
          ELSE LET c == Append(g[2], l)  id == FreshN(Len(c))
               IN <<id, Open(<<a, c>>, id, l[1], d)>>

NewBlock(x, l) == [i |-> FreshB, t |-> x.t, f |-> x.f, b |-> x.b, l |-> l]

\* Insert F at position p: <<blocks, new position, lists created>>
Insert(B, L, p, F) ==
  LET x  == Loc(B, p)  h == B[x[1]]  s == p - x[2]  n == Len(F)
      tb == SubSeq(h.t, 1, x[2])   ta == SubSeq(h.t, x[2] + 1, Len(h.t))
      fb == SubSeq(h.f, 1, x[2])   fa == SubSeq(h.f, x[2] + 1, Len(h.f))
      pre == SubSeq(B, 1, x[1] - 1)   post == SubSeq(B, x[1] + 1, Len(B))
      first == F[1]  last == F[n]
  IN
  IF n = 1 /\ Inline(first)
  THEN <<pre \o <<[h EXCEPT !.t = tb \o first.t \o ta, !.f = fb \o first.f \o fa]>> \o post, p + Len(first.t), <<>>>>
  ELSE IF n = 1
  THEN LET z == NextList(<<<<>>, <<>>>>, first.l)
           tail == [i |-> FreshB, t |-> ta, f |-> fa, b |-> IF tb = <<>> THEN NoBF ELSE h.b, l |-> IF tb = <<>> THEN -1 ELSE h.l]
       IN IF tb = <<>>
          THEN <<pre \o <<[h EXCEPT !.t = first.t, !.f = first.f, !.b = first.b, !.l = z[1]]>>
                     \o (IF ta = <<>> THEN <<>> ELSE <<tail>>) \o post, s + Len(first.t), z[2][2]>>
          ELSE <<pre \o <<[h EXCEPT !.t = tb, !.f = fb], NewBlock(first, z[1]), tail>> \o post,
                 s + Len(tb) + 1 + Len(first.t) + 1, z[2][2]>>
  ELSE LET mf == Inline(first)  ml == Inline(last)
           over == tb = <<>> /\ ~mf
           g0 == IF ~over /\ h.l # -1 /\ ListRec(L, h.l) # NoL
                 THEN LET r == ListRec(L, h.l) IN Open(<<<<>>, <<>>>>, h.l, r[1], r[2]) ELSE <<<<>>, <<>>>>
           z0 == IF over THEN NextList(g0, first.l) ELSE <<h.l, g0>>
           head == IF over THEN [h EXCEPT !.t = first.t, !.f = first.f, !.b = first.b, !.l = z0[1]]
                   ELSE IF mf THEN [h EXCEPT !.t = tb \o first.t, !.f = fb \o first.f]
                   ELSE [h EXCEPT !.t = tb, !.f = fb]
           mid == SubSeq(F, IF mf \/ over THEN 2 ELSE 1, IF ml THEN n - 1 ELSE n)
           M == FoldLeft(LAMBDA a, y : LET z == NextList(a[2], y.l) IN <<Append(a[1], NewBlock(y, z[1])), z[2]>>,
                         <<<<>>, z0[2]>>, mid)
           skip == ta = <<>> /\ ~ml
           tail == [i |-> FreshB, t |-> (IF ml THEN last.t ELSE <<>>) \o ta, f |-> (IF ml THEN last.f ELSE <<>>) \o fa,
                    b |-> IF over THEN NoBF ELSE h.b, l |-> IF over THEN -1 ELSE h.l]
           body == Append(pre, head) \o M[1]
           at == EndPos(body) + 1
       IN <<body \o (IF skip THEN <<>> ELSE <<tail>>) \o post,
            IF skip THEN at - 1 ELSE IF ml THEN at + Len(last.t) ELSE at, M[2][2]>>
=============================================================================
