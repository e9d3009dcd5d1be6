------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* Every read view as a function of the block list (P09).  s is the state, *)
(* v the bundle of views the driver collected.  Each operator gives the    *)
(* names of the views that disagree.                                       *)
(***************************************************************************)
EXTENDS Search, Words

Blanks(t) == [k \in 1..Len(t) |-> t[k] \in Blank]
WordCount(t) == Cardinality({k \in 1..Len(t) : t[k] \notin Blank /\ (k = 1 \/ t[k-1] \in Blank)})
SumOf(f(_), B) == FoldLeft(LAMBDA a, b : a + f(b), 0, B)
Bad(c, n) == IF c THEN {} ELSE {n}

\* Fragments <<offset, length, text, format, ...>>: the text cut where the format changes.
FragsOk(b, F) ==
  /\ FoldLeft(LAMBDA a, x : a \o x[3], <<>>, F) = b.t
  /\ FoldLeft(LAMBDA a, x : a \o [k \in 1..x[2] |-> x[4]], <<>>, F) = b.f
  /\ \A k \in 1..Len(F) : /\ F[k][2] = Len(F[k][3])
                          /\ F[k][1] = (IF k = 1 THEN 0 ELSE F[k-1][1] + F[k-1][2])
                          /\ (F[k][2] > 0 \/ Len(F) = 1)

BlockViews(s, v) ==
  LET B == s.B  S == Starts(B)  n == Len(B)
  IN UNION {
       LET b == B[k]  x == v.nx[k]  z == v.sn[k]
           lst == SelectSeq(s.L, LAMBDA y : y.i = b.l)
       IN Bad(x[1] = (IF k = n THEN -1 ELSE B[k+1].i) /\ x[2] = (IF k = 1 THEN -1 ELSE B[k-1].i), "neighbours")
          \cup Bad(x[3] = TRUE /\ x[4] = (b.t = <<>>) /\ x[5] = Len(b.t), "length")
          \cup Bad(x[6] = b.i /\ x[7] = b.i, "lookup")
          \cup Bad(x[8] = S[k] /\ b.p = S[k], "position")
          \cup Bad(x[9] = k - 1 /\ b.n = k - 1, "number")
          \cup Bad(FragsOk(b, v.fr[k]), "fragments")
          \cup Bad(z.i = b.i /\ z.p = S[k] /\ z.n = Len(b.t) /\ z.t = b.t /\ z.f /\ z.b = b.b /\ z.l = b.l, "snapshot")
          \cup Bad(lst = <<>> \/ z.mk = lst[1].mk[b.x + 1], "snapshot-marker")
          \cup Bad(z.cf = Append([j \in 1..Len(b.f) |-> Bare(b.f[j])], -1), "char-format-at")
       : k \in 1..n }

CellText(B, S, p, k) == LET f == Plainly(B) IN SubSeq(f, p + 1, DMin(p + k, Len(f)))

PosViews(s, v) ==
  LET B == s.B  S == Starts(B)  e == EndPos(B)  flat == Plainly(B)
  IN UNION {
       LET a == v.at[p + 1]  j == CurBlock(B, p)  b == B[j]  x == Loc(B, p)  h == B[x[1]]
       IN Bad(p > e \/ a.ba = <<b.i, j - 1, S[j], Len(b.t)>>, "block-at")
          \cup Bad(p > e \/ a.bap = b.i, "block-at-position")
          \cup Bad(p > e \/ a.bf = b.b, "block-format-at")
          \cup Bad(p > e \/ a.sb = <<h.i, S[x[1]], Len(h.t), h.t>>, "snapshot-at")
          \cup Bad(\A t \in Range(a.ta) : IF p > e THEN t[2] = "err" \/ t[3] = <<>>
                                          ELSE t[2] = "ok" /\ t[3] = SubSeq(flat, p + 1, DMin(p + t[1], Len(flat))), "text-at")
          \cup Bad(\A t \in Range(a.br) :
                LET H == SelectSeq([k \in 1..Len(B) |-> k], LAMBDA k :
                            LET bs == S[k]  be == S[k] + Len(B[k].t)
                            IN IF t[1] = 0 THEN p >= bs /\ p < be ELSE bs < p + t[1] /\ be > p)
                IN t[2] = [k \in 1..Len(H) |-> B[H[k]].i], "blocks-in-range")
          \cup Bad(p > e \/ \A F \in Range(v.fr[x[1]]) :   \* inside a fragment
                        F[1] < x[2] /\ x[2] < F[1] + F[2] => a.fe = <<S[x[1]] + F[1], x[2] - F[1]>>, "element-at")
       : p \in 0..(Len(v.at) - 1) }
     \cup UNION {
       LET a == v.ca[p + 1]  q == a.p  j == CurBlock(B, q)  b == B[j]  o == DMax(q - S[j], 0)
       IN Bad(a.bn = j - 1 /\ a.pb = o, "cursor-block")
          \cup Bad(a.bs = (q = S[j]) /\ a.be = (q = S[j] + Len(b.t)) /\ a.s = (q = 0) /\ a.e = (q = e), "cursor-edges")
          \cup Bad(a.bf = b.b, "cursor-block-format")
          \cup Bad(a.cl = b.l, "cursor-list")
          \cup Bad(a.cf = (IF o < Len(b.t) THEN Bare(b.f[o + 1]) ELSE DefF), "cursor-char-format")
       : p \in 0..(Len(v.ca) - 1) }

Tabs(s) == IF "G" \in DOMAIN s THEN s.G ELSE <<>>
\* One for the text, and one for each table and each of its cells.
Frames(s) == 1 + FoldLeft(LAMBDA a, t : a + 1 + Len(t.cells), 0, Tabs(s))
DocViews(s, v) ==
  LET B == s.B  n == Len(B)  S == Starts(B)
      cc == SumOf(LAMBDA b : Len(b.t), B)
  IN Bad(v.pt = Plainly(B), "plain-text")
     \cup Bad(v.st[1] = cc /\ s.cc = cc, "character-count")
     \cup Bad(v.st[2] = SumOf(LAMBDA b : WordCount(b.t), B), "word-count")
     \cup Bad(v.st[3] = n /\ s.bc = n, "block-count")
     \cup Bad(v.st[4] = Frames(s) /\ v.st[7] = Len(Tabs(s)) /\ v.st[5] = SumOf(LAMBDA b : Cardinality({k \in DOMAIN b.f : IsImg(b.f[k])}), B), "other-counts")
     \cup Bad(v.st[6] >= Len(s.L), "list-count")
     \cup Bad(v.em = (cc = 0), "is-empty")
     \cup Bad(Tabs(s) # <<>> \/ s.K = [k \in 1..n |-> <<"b", B[k].i>>], "flow")   \* with tables: Tables!FlowOk
     \cup Bad(v.fs = [j \in 1..Len(s.K) |->
                 IF s.K[j][1] = "t" THEN s.K[j]
                 ELSE LET k == CHOOSE k \in 1..n : B[k].i = s.K[j][2] IN <<"b", B[k].i, S[k], Len(B[k].t), B[k].t, B[k].b>>], "flow-snapshot")
     \cup Bad(v.bad = <<-1, -1>>, "absent-block")

ViewTags(s, v) == IF Len(v.nx) # Len(s.B) \/ Len(v.at) # EndPos(s.B) + 3 THEN {"shape"}
                  ELSE DocViews(s, v) \cup BlockViews(s, v) \cup PosViews(s, v)
=============================================================================
