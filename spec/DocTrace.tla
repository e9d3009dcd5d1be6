------------------------------ MODULE DocTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of the real library against Doc.             *)
(*                                                                         *)
(* Every line of the log holds an operation, its result and the complete   *)
(* observable state after it.  One TLC step consumes one line: the state   *)
(* before is the previous line's, the state the specification demands is   *)
(* computed from it, and every difference is reported under the property   *)
(* it breaks.  What the log does not show (undo history, groups, merge     *)
(* windows, resources) is carried in variables of this module.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.LOG)
Fmt == ndJsonDeserialize(IOEnv.FMT)
PROP == IOEnv.PROP
Want(p) == PROP = "ALL" \/ PROP = p

FSet == Range(Fmt)
FMap == [v \in FSet |-> CHOOSE k \in 1..Len(Fmt) : Fmt[k] = v]
FIdx(v) == IF v \in FSet THEN FMap[v] ELSE 0

MergeFields == {1, 4, 5, 6, 8}
TOverSet(fi, d)   == FIdx([k \in 1..14 |-> IF k <= 12 /\ d[k] # "-" THEN d[k] ELSE Fmt[fi][k]])
\* an empty font family counts as not given
TOverMerge(fi, d) == FIdx([k \in 1..14 |-> IF k \in MergeFields /\ d[k] # "-" /\ ~(k = 1 /\ d[k] = "=") THEN d[k] ELSE Fmt[fi][k]])
OrD(x, y) == IF x = "-" THEN y ELSE x
TInsFmt(d) == FIdx(<<OrD(d[1], "="), OrD(d[2], "=0"), "-", OrD(d[4], "=false"), OrD(d[5], "=false"),
                     OrD(d[6], "=false"), "-", OrD(d[8], "=false"), "-", "-", "-", "-", "-", "-">>)
TImg(op) == FIdx([k \in 1..14 |-> IF k = 14 THEN "=" \o op.v \o ":" \o ToString(op.w) \o "x" \o ToString(op.h) ELSE "-"])
TIsImg(fi) == fi > 0 /\ Fmt[fi][14] # "-"
TBare(fi) == IF TIsImg(fi) THEN FIdx([Fmt[fi] EXCEPT ![14] = "-"]) ELSE fi
HL == INSTANCE Highlight
TB == INSTANCE Tables
INSTANCE Frag WITH OverSet <- TOverSet, OverMerge <- TOverMerge, InsFmt <- TInsFmt, DefF <- 1, IsImg <- TIsImg, Bare <- TBare

VARIABLES l,      \* next line to consume
          us, rs, \* undo and redo histories, top last
          grp,    \* open edit block: depth, line before its first edit, number of edits
          live,   \* FALSE once the undo history of this trace can no longer be followed
          resv,   \* resources set so far
          frags   \* fragments taken so far: <<is it known, the fragment>>
vars == <<l, us, rs, grp, live, resv, frags>>

(***************************************************************************)
(* Texts, lists                                                            *)
(***************************************************************************)
Txt(B) == [k \in 1..Len(B) |-> B[k].t]
Ids(B) == {B[k].i : k \in 1..Len(B)}
Lids(B) == {B[k].l : k \in 1..Len(B)} \ {-1}
LAttr(x) == <<"=" \o x.y, "=" \o ToString(x.d), "=" \o Str(x.pre), "=" \o Str(x.suf)>>
LAttrs(L) == {<<L[k].i, LAttr(L[k])>> : k \in 1..Len(L)}
Unflat(s) == [k \in 1..Len(s) |-> IF s[k] = NL THEN "U+000A" ELSE s[k]]
Members(B, id) == SelectSeq(B, LAMBDA b : b.l = id)

\* Lines of a text with CR LF and CR taken as line ends.
Lines(s) ==
  LET step(a, k) ==
        IF s[k] = "U+000A" /\ k > 1 /\ s[k-1] = "U+000D" THEN a
        ELSE IF s[k] \in {"U+000A", "U+000D"} THEN Append(a, <<>>)
        ELSE [a EXCEPT ![Len(a)] = Append(@, s[k])]
  IN FoldLeft(step, <<<<>>>>, [k \in 1..Len(s) |-> k])

\* Lines between line feeds.
LfLines(s) == FoldLeft(LAMBDA a, c : IF c = NLU THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, c)], <<<<>>>>, s)

(***************************************************************************)
(* What an operation must do                                               *)
(***************************************************************************)
Pure == {"seltxt", "copy", "fragtxt", "fragpt", "fragdoc", "find", "finda", "views", "res", "getres", "setm", "pause", "clr",
         "hlon", "hloff", "rehl", "rehlb", "ebeg", "eend", "title", "dir", "wrap", "curl", "drop", "newc", "clone", "clrsel", "setp", "mov", "sel"}
Texty == {"ins", "insf", "img", "blk", "del", "bsp", "rms", "il"}
Opaque == {"paste", "md", "html", "itab", "rtab", "irow", "icol", "drow", "dcol", "mcell", "scell", "tfmt", "cfmt"}
OnCursor == Texty \cup {"paste", "md", "html", "setf", "mrgf", "setb", "cl", "addcur", "remcur", "setcl"}

\* k: how far the specification determines the outcome ("exact", "weak", "fail", "any")
\* B: blocks after; mv: <<edit point, removed, added, new position>> or <<>>
\* v: value returned, when determined;  lf: list whose attributes change and how
E0(pre) == [k |-> "exact", B |-> pre.B, mv |-> <<>>, v |-> <<>>, lf |-> <<>>, fl |-> <<>>, nl |-> <<>>]
Unknown == <<FALSE, <<>>>>
FragOf(op) == IF op.f + 1 <= Len(frags) THEN frags[op.f + 1] ELSE Unknown
XEdit(pre, B, a, b, ad, np) == [E0(pre) EXCEPT !.B = B, !.mv = <<a, b - a, ad, np>>]

BadRx == {<<"[">>, <<"(">>}   \* invalid regular expressions the driver tries

\* Where an edit is: in a table cell (or outside of tables, <<0, 0>>) it stays there, and what reaches from one cell
\* into another or over a table is not determined here.
ZoneAt(s, p) == TB!Zone(s, s.B[Loc(s.B, p)[1]].i)
CellKey == {"del", "bsp"}
Crosses(pre, op) ==
  /\ TB!HasTables(pre) /\ op.n \in Texty \cup {"paste"} /\ pre.C[op.c+1][1] >= 0
  /\ LET C == pre.C[op.c+1]  e == EndPos(pre.B)
     IN C[1] <= e /\ C[2] <= e /\ C[1] # C[2]
        /\ \E k \in Loc(pre.B, DMin(C[1], C[2]))[1]..Loc(pre.B, DMax(C[1], C[2]))[1] : TB!Zone(pre, pre.B[k].i) # ZoneAt(pre, C[1])
\* Delete and Backspace at the edge of a cell do nothing.
AtEdge(pre, op) ==
  /\ TB!HasTables(pre) /\ op.n \in CellKey /\ pre.C[op.c+1][1] >= 0
  /\ LET C == pre.C[op.c+1]  e == EndPos(pre.B)  z == IF op.n = "del" THEN NextG(op.g, C[1]) ELSE PrevG(op.g, C[1])
     IN C[1] = C[2] /\ C[1] <= e /\ ZoneAt(pre, C[1]) # ZoneAt(pre, z)

Expect(pre, op) ==
  LET B  == pre.B
      me == IF "c" \in DOMAIN op THEN op.c + 1 ELSE 0
      has == me > 0 /\ me <= Len(pre.C) /\ pre.C[me][1] >= 0
      p  == pre.C[me][1]  q == pre.C[me][2]
      a  == DMin(p, q)    b == DMax(p, q)
      n  == op.n
      out == b > EndPos(B)
      D  == DelRange(B, a, b)
      cb == B[CurBlock(B, p)]
      known == {pre.L[k].i : k \in 1..Len(pre.L)}
  IN
  CASE Crosses(pre, op) -> [E0(pre) EXCEPT !.k = "any"]
    [] AtEdge(pre, op) -> XEdit(pre, B, p, p, 0, p)
    [] n = "paste" /\ has /\ ~out /\ FragOf(op)[1] ->
         (IF FragOf(op)[2] = <<>> THEN [E0(pre) EXCEPT !.k = "fail"]
          ELSE LET X == Insert(D, pre.L, a, FragOf(op)[2])
               IN [XEdit(pre, X[1], a, b, EndPos(X[1]) - EndPos(D), X[2]) EXCEPT !.nl = X[3]])
    [] n \in {"find", "finda", "repl"} /\ op.o.rx /\ op.q \in BadRx -> [E0(pre) EXCEPT !.k = "fail"]
    [] n \in Pure -> E0(pre)
    [] n \in OnCursor /\ has /\ out -> [E0(pre) EXCEPT !.k = "any"]
    [] n = "ins" -> XEdit(pre, InsChars(D, a, op.s, Inherit(D, a)), a, b, Len(op.s), a + Len(op.s))
    [] n = "insf" -> XEdit(pre, InsChars(D, a, op.s, TInsFmt(op.d)), a, b, Len(op.s), a + Len(op.s))
    [] n = "img" -> IF op.w = 0 \/ op.h = 0 THEN [E0(pre) EXCEPT !.k = "fail"]
                    ELSE XEdit(pre, InsChars(D, a, <<"U+FFFC">>, TImg(op)), a, b, 1, a + 1)
    [] n = "blk" -> XEdit(pre, SplitAt(D, a), a, b, 1, a + 1)
    [] n = "rms" -> [XEdit(pre, D, a, b, 0, a) EXCEPT !.v = <<Unflat(SubSeq(Flat(B), a + 1, b))>>]
    [] n \in {"del", "bsp"} /\ a # b -> XEdit(pre, D, a, b, 0, a)
    [] n = "del" -> LET z == NextG(op.g, p)
                    IN [XEdit(pre, DelRange(B, p, z), p, z, 0, p) EXCEPT !.k = IF p \in Range(op.g) THEN "exact" ELSE "weak"]
    [] n = "bsp" -> LET z == PrevG(op.g, p)
                    IN [XEdit(pre, DelRange(B, z, p), z, p, 0, z) EXCEPT !.k = IF p \in Range(op.g) THEN "exact" ELSE "weak"]
    [] n = "il" -> LET x == Loc(B, p)  e == Starts(B)[x[1] + 1]
                   IN [XEdit(pre, AddItem(B, p), e - 1, e - 1, 1, e) EXCEPT !.fl = <<"=" \o op.y, "=0", "=", "=">>]
    [] n = "setf" -> [E0(pre) EXCEPT !.B = FormatRange(B, a, b, op.d, TOverSet)]
    [] n = "mrgf" -> [E0(pre) EXCEPT !.B = FormatRange(B, a, b, op.d, TOverMerge)]
    [] n = "setb" -> [E0(pre) EXCEPT !.B = FormatBlocks(B, a, b, op.d)]
    [] n = "cl" -> [E0(pre) EXCEPT !.B = JoinList(B, a, b), !.fl = <<"=" \o op.y, "=0", "=", "=">>]
    [] n = "addl" -> IF op.b \in Ids(B) /\ op.l \in known THEN [E0(pre) EXCEPT !.B = SetList(B, op.b, op.l)]
                     ELSE [E0(pre) EXCEPT !.k = IF op.b \in Ids(B) /\ op.l # 888888 THEN "any" ELSE "fail"]
    [] n = "addcur" -> IF op.l \in known THEN [E0(pre) EXCEPT !.B = SetList(B, cb.i, op.l)] ELSE [E0(pre) EXCEPT !.k = "any"]
    [] n = "reml" -> IF \E k \in 1..Len(B) : B[k].i = op.b /\ B[k].l # -1 THEN [E0(pre) EXCEPT !.B = SetList(B, op.b, -1)]
                     ELSE [E0(pre) EXCEPT !.k = "fail"]
    [] n = "remcur" -> IF cb.l # -1 THEN [E0(pre) EXCEPT !.B = SetList(B, cb.i, -1)] ELSE [E0(pre) EXCEPT !.k = "fail"]
    [] n = "rli" -> LET M == Members(B, op.l)
                    IN IF op.i < Len(M) THEN [E0(pre) EXCEPT !.B = SetList(B, M[op.i + 1].i, -1)] ELSE [E0(pre) EXCEPT !.k = "fail"]
    [] n = "setl" -> IF op.l \in known THEN [E0(pre) EXCEPT !.lf = <<op.l, op.d>>]
                     ELSE [E0(pre) EXCEPT !.k = IF op.l = 888888 THEN "fail" ELSE "any"]
    [] n = "setcl" -> IF cb.l # -1 THEN [E0(pre) EXCEPT !.lf = <<cb.l, op.d>>] ELSE [E0(pre) EXCEPT !.k = "fail"]
    [] OTHER -> [E0(pre) EXCEPT !.k = "opaque"]

(***************************************************************************)
(* Comparisons                                                             *)
(***************************************************************************)
SameText(X, Y)   == Len(X) = Len(Y) /\ \A k \in 1..Len(X) : X[k].t = Y[k].t
SameFmt(X, Y)    == \A k \in 1..Len(X) : Len(X[k].f) = Len(Y[k].f) /\ \A j \in 1..Len(X[k].f) : X[k].f[j] = Y[k].f[j] \/ (X[k].f[j] = AnyF /\ ~TIsImg(Y[k].f[j]))
SameLists(X, Y, oldl) ==
  /\ \A k \in 1..Len(X) : IF X[k].l < -1 THEN Y[k].l # -1 /\ Y[k].l \notin oldl ELSE X[k].l = Y[k].l
  /\ \A j, k \in 1..Len(X) : X[j].l < -1 /\ X[k].l < -1 => ((Y[j].l = Y[k].l) = (X[j].l = X[k].l))
SameBlocks(X, Y, old, oldl) ==
  /\ \A k \in 1..Len(X) : SameId(X[k].i, Y[k].i, old) /\ X[k].b = Y[k].b
  /\ SameLists(X, Y, oldl)
IdsDistinct(B) == Cardinality(Ids(B)) = Len(B)

OverL(v, d) == [k \in 1..4 |-> IF d[k] # "-" THEN d[k] ELSE v[k]]
\* Attributes a list must have afterwards.
WantAttr(x, pre, e) ==
  IF \E k \in 1..Len(pre.L) : pre.L[k].i = x
  THEN LET v == LAttr(CHOOSE r \in Range(pre.L) : r.i = x)
       IN IF e.lf # <<>> /\ e.lf[1] = x THEN OverL(v, e.lf[2]) ELSE v
  ELSE e.fl
ListsAsWanted(pre, post, e) ==
  /\ Len(e.B) # Len(post.B) \/ \A j \in 1..Len(post.B) : e.B[j].l <= FreshN(1) =>
       LET w == e.nl[-100 - e.B[j].l] IN \A k \in 1..Len(post.L) :
         post.L[k].i = post.B[j].l => LAttr(post.L[k]) = <<"=" \o w[1], "=" \o ToString(w[2]), "=" \o Str(w[3]), "=" \o Str(w[4])>>
  /\ \A k \in 1..Len(post.L) : LET w == WantAttr(post.L[k].i, pre, e) IN w = <<>> \/ LAttr(post.L[k]) = w

\* Resources, when the log has them: for the names "a" and "b", the bytes last stored.
HasRes(s) == "Z" \in DOMAIN s
SameRes(x, y) == ~HasRes(x) \/ x.Z = y.Z
SameTables(x, y) == ~TB!Has(x) \/ (x.G = y.G /\ x.K = y.K)
\* Same observable document, for undo and redo.
SameDoc(x, y) == /\ SameText(x.B, y.B) /\ SameFmt(x.B, y.B)
                 /\ \A k \in 1..Len(x.B) : x.B[k].i = y.B[k].i /\ x.B[k].b = y.B[k].b /\ x.B[k].l = y.B[k].l
                 /\ LAttrs(x.L) = LAttrs(y.L) /\ x.T = y.T /\ SameRes(x, y) /\ SameTables(x, y)

(***************************************************************************)
(* Lists: numbering and markers (P13)                                      *)
(***************************************************************************)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE Dec(n \div 10) \o <<Digits[(n % 10) + 1]>>
LowA == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpA  == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
RomV == <<1000, 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1>>
RomL == <<<<"m">>, <<"c","m">>, <<"d">>, <<"c","d">>, <<"c">>, <<"x","c">>, <<"l">>, <<"x","l">>, <<"x">>, <<"i","x">>, <<"v">>, <<"i","v">>, <<"i">>>>
RomU == <<<<"M">>, <<"C","M">>, <<"D">>, <<"C","D">>, <<"C">>, <<"X","C">>, <<"L">>, <<"X","L">>, <<"X">>, <<"I","X">>, <<"V">>, <<"I","V">>, <<"I">>>>
RECURSIVE Rom(_,_)
Rom(n, T) == IF n = 0 THEN <<>> ELSE LET k == CHOOSE k \in 1..13 : RomV[k] <= n /\ \A j \in 1..(k-1) : RomV[j] > n
                                     IN T[k] \o Rom(n - RomV[k], T)
Body(y, i) ==
  CASE y = "Disc" -> <<"U+2022">> [] y = "Circle" -> <<"U+25E6">> [] y = "Square" -> <<"U+25AA">>
    [] y = "Decimal" -> Dec(i)
    [] y = "LowerAlpha" -> IF i <= 26 THEN <<LowA[i]>> ELSE Dec(i)
    [] y = "UpperAlpha" -> IF i <= 26 THEN <<UpA[i]>> ELSE Dec(i)
    [] y = "LowerRoman" -> Rom(i, RomL)
    [] y = "UpperRoman" -> Rom(i, RomU)
    [] OTHER -> <<"?">>
ListInv(s) ==
  /\ {s.L[k].i : k \in 1..Len(s.L)} = Lids(s.B)
  /\ \A k \in 1..Len(s.L) :
       LET x == s.L[k]  M == Members(s.B, x.i)
       IN /\ x.n = Len(M)
          /\ x.it = [j \in 1..Len(M) |-> M[j].i]
          /\ x.mk = [j \in 1..Len(M) |-> x.pre \o Body(x.y, j) \o x.suf]
          /\ \A j \in 1..Len(M) : M[j].x = j - 1
  /\ \A k \in 1..Len(s.B) : s.B[k].l = -1 => s.B[k].x = -1

(***************************************************************************)
(* Events (P07)                                                            *)
(***************************************************************************)
Evs(s, k) == SelectSeq(s.ev, LAMBDA e : e.e = k)
CCRegion(s) == LET c == Evs(s, "CC") IN IF c = <<>> THEN <<>> ELSE <<c[1].p, c[1].r, c[1].a>>
MirrorOk(x, y, r) ==
  IF r = <<>> THEN x = y
  ELSE /\ r[1] + r[2] <= Len(x) /\ Len(y) = Len(x) - r[2] + r[3]
       /\ SubSeq(x, 1, r[1]) = SubSeq(y, 1, r[1])
       /\ SubSeq(x, r[1] + r[2] + 1, Len(x)) = SubSeq(y, r[1] + r[3] + 1, Len(y))
InFC(ev, kinds, q) == \E k \in 1..Len(ev) : ev[k].e = "FC" /\ ev[k].k \in kinds /\ ev[k].p <= q /\ q < ev[k].p + ev[k].n
FmtReported(pre, post, r) ==
  LET x == FlatF(pre.B)  y == FlatF(post.B)
      p == IF r = <<>> THEN Len(y) ELSE r[1]
      a == IF r = <<>> THEN 0 ELSE r[3]
      dl == Len(y) - Len(x)
  IN \A q \in 1..Len(y) :
       IF q <= p THEN y[q] = x[q] \/ InFC(post.ev, {"Character"}, q - 1)
       ELSE IF q <= p + a THEN TRUE
       ELSE y[q] = x[q - dl] \/ InFC(post.ev, {"Character"}, q - 1)
Hit(s, k, p, n) == LET b == s.B[k] IN b.p <= p + n /\ b.p + Len(b.t) >= p
BlkReported(pre, post, r) ==
  \A k \in 1..Len(post.B) : \A j \in 1..Len(pre.B) : pre.B[j].i = post.B[k].i /\ pre.B[j].b # post.B[k].b =>
     \/ \E z \in Range(post.ev) : z.e = "FC" /\ Hit(post, k, z.p, z.n)
     \/ r # <<>> /\ Hit(post, k, r[1], r[3])
LstReported(pre, post, r) ==
  \/ \E z \in Range(post.ev) : z.e = "FC" /\ z.k = "List"
  \/ /\ \A k \in 1..Len(post.B) : \A j \in 1..Len(pre.B) : pre.B[j].i = post.B[k].i /\ pre.B[j].l # post.B[k].l =>
          r # <<>> /\ Hit(post, k, r[1], r[3])
     /\ \A x \in LAttrs(pre.L) : \A y \in LAttrs(post.L) : x[1] = y[1] => x[2] = y[2]
\* Flow events turn the old element list into the new one.
FlowOk(K, Z, ev) ==
  LET step(a, z) ==
        IF z.e = "FR" THEN (IF z.p + z.n <= Len(a) THEN SubSeq(a, 1, z.p) \o SubSeq(a, z.p + z.n + 1, Len(a)) ELSE Append(a, <<"bad">>))
        ELSE IF z.e = "FI" THEN (IF z.p <= Len(a) THEN SubSeq(a, 1, z.p) \o [k \in 1..z.n |-> <<"new">>] \o SubSeq(a, z.p + 1, Len(a)) ELSE Append(a, <<"bad">>))
        ELSE a
      R == FoldLeft(step, K, ev)
  IN Len(R) = Len(Z) /\ \A k \in 1..Len(R) : R[k] = <<"new">> \/ R[k] = Z[k]
URok(pre, post) ==
  LET c == Evs(post, "UR")
  IN /\ c # <<>> => (Last(c).u = post.u /\ Last(c).r = post.r)
     /\ c = <<>> => (pre.u = post.u /\ pre.r = post.r)
BCok(pre, post) ==
  LET c == Evs(post, "BC")
  IN IF Len(pre.B) # Len(post.B) THEN Len(c) = 1 /\ c[1].n = Len(post.B) ELSE c = <<>>
EventTags(pre, post) ==
  LET r == CCRegion(post)
      T(c, t) == IF c THEN {} ELSE {<<"P07", t>>}
  IN IF Evs(post, "RS") # <<>> THEN T(Len(Evs(post, "RS")) = 1, "reset-once") \cup T(BCok(pre, post), "block-count") \cup T(URok(pre, post), "undo-flags")
     ELSE T(Len(Evs(post, "CC")) <= 1, "one-change") \cup T(MirrorOk(Flat(pre.B), Flat(post.B), r), "mirror")
          \cup (IF MirrorOk(Flat(pre.B), Flat(post.B), r) THEN T(FmtReported(pre, post, r), "formats") ELSE {})
          \cup T(BlkReported(pre, post, r), "block-formats") \cup T(LstReported(pre, post, r), "lists")
          \cup T(BCok(pre, post), "block-count") \cup T(FlowOk(pre.K, post.K, post.ev), "flow") \cup T(URok(pre, post), "undo-flags")

(***************************************************************************)
(* Verdicts on one line                                                    *)
(***************************************************************************)
T1(c, p, t) == IF c THEN {} ELSE {<<p, t>>}
SettingsWanted(pre, op) ==
  CASE op.n = "title" -> [pre.T EXCEPT ![1] = op.v]
    [] op.n = "dir"   -> [pre.T EXCEPT ![2] = op.v]
    [] op.n = "wrap"  -> [pre.T EXCEPT ![3] = op.v]
    [] OTHER -> pre.T
CursorsWanted(pre, op, e) ==
  LET C == pre.C  me == op.c + 1
  IN CASE op.n = "newc" -> <<>>
       [] op.n = "clone" -> Append(C, C[me])
       [] op.n = "drop" -> [C EXCEPT ![me] = <<-1, -1>>]
       [] op.n = "clrsel" -> [C EXCEPT ![me] = <<@[1], @[1]>>]
       [] op.n \in {"setp", "mov", "sel"} -> <<>>
       [] op.n \in Texty \cup {"paste"} /\ e.mv # <<>> ->
            IF op.n \in {"del", "bsp", "rms"} /\ e.mv[2] = 0 THEN C ELSE MoveCursors(C, me, e.mv[1], e.mv[2], e.mv[3], e.mv[4])
       [] OTHER -> C

Exact(pre, op, e, post, res) ==
  LET X == e.B  Y == post.B
      okText == SameText(X, Y)
      cw == CursorsWanted(pre, op, e)
      pt == IF op.n \in {"setf", "mrgf"} THEN "P02" ELSE IF op.n = "setb" THEN "P03" ELSE IF op.n \in Texty \cup Pure THEN "P01" ELSE "P13"
  IN T1(res.k = "ok", pt, "refused")
     \cup (IF res.k # "ok" THEN {} ELSE
           T1(okText, "P01", "text")
           \cup T1(~okText \/ SameFmt(X, Y), "P02", "formats")
           \cup T1(Len(X) # Len(Y) \/ SameBlocks(X, Y, Ids(pre.B), Lids(pre.B)), "P03", "blocks")
           \cup T1(Len(X) # Len(Y) \/ SameLists(X, Y, Lids(pre.B)), "P13", "membership")
           \cup T1(ListsAsWanted(pre, post, e), "P13", "attributes")
           \cup T1(e.v = <<>> \/ res.v = e.v[1], "P01", "returned-text")
           \cup T1(op.n # "seltxt" \/ res.v = Unflat(SubSeq(Flat(pre.B), DMin(pre.C[op.c+1][1], pre.C[op.c+1][2]) + 1, DMax(pre.C[op.c+1][1], pre.C[op.c+1][2]))), "P01", "selected-text")
           \cup T1(cw = <<>> \/ ~okText \/ post.C = cw, "P04", "cursors"))

Weak(pre, op, post) ==
  LET d == Diff(Flat(pre.B), Flat(post.B))
  IN T1(d[3] = 0 \/ d[2] = 0, "P01", "weak-delete")

\* Nothing changed and nothing was said.
Unchanged(pre, post) == post.ev = <<>> /\ \A k \in DOMAIN pre \ {"ev", "cb"} : post[k] = pre[k]
UnchangedBut(pre, post, fs) == post.ev = <<>> /\ \A k \in DOMAIN pre \ ({"ev", "cb"} \cup fs) : post[k] = pre[k]

Step(pre, op, res, post) ==
  LET e == Expect(pre, op)
      inside(s) == \A k \in 1..Len(s.C) : s.C[k][1] <= EndPos(s.B) /\ s.C[k][2] <= EndPos(s.B)
  IN
  IF res.k = "panic" THEN {<<"P21", "panic">>}
  ELSE IF res.k = "skip" THEN {}
  ELSE
  (IF res.k = "err"
   THEN T1(Unchanged(pre, post) , "P21", "failed-call-changed")
   ELSE {})
  \cup (CASE e.k = "exact" -> LET X == Exact(pre, op, e, post, res) IN X \cup (IF op.n = "paste" THEN {<<"P16", v[2]>> : v \in X} ELSE {})
          [] e.k = "fail" -> T1(res.k = "err", CASE op.n = "paste" -> "P16" [] op.n = "img" -> "P21" [] OTHER -> "P13", "accepted")
          [] e.k = "weak" -> Weak(pre, op, post)
          [] OTHER -> {})
  \cup T1(~inside(pre) \/ inside(post) \/ op.n \in {"newc"}, "P04", "outside")
  \cup (IF e.k = "any" /\ ~Crosses(pre, op) THEN {} ELSE EventTags(pre, post))
  \cup T1(ListInv(post), "P13", "list-invariant")
  \cup T1(IdsDistinct(post.B), "P03", "ids")
  \cup T1(post.T = SettingsWanted(pre, op) \/ op.n \in {"undo", "redo", "spt", "clear"}, "P24", "settings")
  \cup T1(CASE op.n = "setm" -> post.m = op.v
            [] op.n \in Texty \cup {"setf", "mrgf", "setb", "cl", "addl", "addcur", "reml", "remcur", "rli", "setl", "setcl", "paste", "repl"} \cup TB!TableOps
                 -> (IF pre.B # post.B \/ pre.L # post.L \/ (op.n \in TB!TableOps /\ ~SameTables(pre, post)) THEN post.m ELSE post.m \/ ~pre.m)
            [] op.n \in {"md", "html"} -> post.m \/ (res.k = "err" /\ ~pre.m)
            [] op.n \in {"spt", "clear"} -> post.m \/ ~pre.m
            [] OTHER -> post.m = pre.m, "P24", "modified")
  \cup T1(LET c == Evs(post, "MC") IN IF op.n = "setm" /\ pre.m # op.v THEN Len(c) = 1 /\ c[1].m = op.v ELSE c = <<>>, "P24", "modified-event")

(***************************************************************************)
(* Moving cursors (P10)                                                    *)
(***************************************************************************)
NavTags(pre, op, res, post) ==
  IF ~Want("P10") \/ op.n \notin {"newc", "clone", "clrsel", "setp", "mov", "sel"} \/ res.k # "ok" THEN {} ELSE
  LET B == pre.B  C == pre.C  me == op.c + 1
      p == C[me][1]  q == C[me][2]
      keep == "m" \in DOMAIN op /\ op.m = 1
      new == CASE op.n = "newc" -> LET z == Snap(B, op.g, op.p) IN <<z, z>>
               [] op.n = "clone" -> C[me]
               [] op.n = "clrsel" -> <<p, p>>
               [] op.n = "setp" -> Place(B, op.g, op.p, keep, q)
               [] op.n = "mov" -> Place(B, op.g, Target(B, op.g, op.w, op.wc, op.o, p, op.k), keep, q)
               [] op.n = "sel" -> Selected(B, op.w, op.y, p)
      known == op.n = "newc" \/ (p <= EndPos(B) /\ q <= EndPos(B)
                                 /\ (p \in Range(op.g) \/ op.n = "setp" \/ (op.n = "mov" /\ op.o \notin {"NextCharacter", "PreviousCharacter", "Left", "Right"}) \/ op.n = "sel"))
      W == IF op.n \in {"newc", "clone"} THEN Append(C, new) ELSE [C EXCEPT ![me] = new]
      \* A selection with one end in a table and the other outside is stretched over the table; how far is not determined here.
      trap == keep /\ known /\ TB!HasTables(pre)
              /\ LET goal == IF op.n = "setp" THEN DMin(op.p, EndPos(B)) ELSE Target(B, op.g, op.w, op.wc, op.o, p, op.k)
                 IN (ZoneAt(pre, goal) = <<0, 0>>) # (ZoneAt(pre, q) = <<0, 0>>)
  IN IF op.n \in {"clone", "clrsel"} THEN T1(post.C = W, "P10", op.n)
     ELSE IF trap THEN T1(post.C[me][1] <= EndPos(B) /\ post.C[me][2] = q, "P10", "outside")
     ELSE IF ~known THEN T1(post.C[me][1] <= EndPos(B), "P10", "outside")
     ELSE T1(post.C = W, "P10", op.n)
          \cup T1(op.n # "mov" \/ res.v = (new[1] # p), "P10", "moved")

(***************************************************************************)
(* Copying (P16)                                                           *)
(***************************************************************************)
Sel(s, op) == <<DMin(s.C[op.c+1][1], s.C[op.c+1][2]), DMax(s.C[op.c+1][1], s.C[op.c+1][2])>>
Copied(pre, op) ==
  CASE op.n = "fragpt" -> <<TRUE, PlainFrag(LfLines(op.s))>>
    [] op.n = "fragdoc" -> <<TRUE, Extract(pre, 0, EndPos(pre.B) + 1)>>
    [] op.n = "copy" -> LET z == Sel(pre, op) IN IF z[2] > EndPos(pre.B) THEN Unknown ELSE <<TRUE, Extract(pre, z[1], z[2])>>
FragTags(pre, op, res, post) ==
  CASE op.n \in {"copy", "fragpt", "fragdoc"} /\ res.k = "ok" ->
         LET F == Copied(pre, op)
         IN T1(~F[1] \/ (res.v.t = FragText(F[2]) /\ res.v.e = (FragText(F[2]) = <<>>)), "P16", "fragment-text")
    [] op.n = "fragtxt" /\ res.k = "ok" /\ FragOf(op)[1] -> T1(res.v = FragText(FragOf(op)[2]), "P16", "fragment-changed")
    [] OTHER -> {}

(***************************************************************************)
(* Search and replace (P11, P12)                                           *)
(***************************************************************************)
SearchTags(pre, op, res, post) ==
  CASE op.n = "finda" /\ Want("P11") /\ res.k = "ok" -> T1(res.v = Matches(pre.B, op), "P11", "find-all")
    [] op.n = "find" /\ Want("P11") /\ res.k = "ok" -> T1(res.v = Find(Matches(pre.B, op), op.p, op.o.bk), "P11", "find")
    [] op.n = "repl" /\ Want("P12") /\ res.k = "ok" ->
         LET M == Chosen(pre.B, op)  X == Replaced(pre.B, M, op.s)  Y == post.B
         IN T1(res.v = Len(M), "P12", "count")
            \cup T1(SameText(X, Y), "P12", "text")
            \cup T1(~SameText(X, Y) \/ SameFmt(X, Y), "P12", "formats")
            \cup T1(Len(X) # Len(Y) \/ \A k \in 1..Len(X) : X[k].i = Y[k].i /\ X[k].b = Y[k].b /\ X[k].l = Y[k].l, "P12", "blocks")
            \cup T1(M # <<>> \/ Unchanged(pre, post), "P12", "nothing-to-replace")
    [] op.n \in {"find", "finda", "repl"} /\ res.k = "err" -> T1(op.o.rx /\ op.q \in BadRx, IF op.n = "repl" THEN "P12" ELSE "P11", "refused")
    [] OTHER -> {}
\* A replacement moves cursors as undo does: by the region in which the texts differ.
ReplCursors(pre, op, res, post) ==
  IF op.n # "repl" \/ res.k # "ok" THEN {} ELSE
  LET d == Diff(Flat(pre.B), Flat(post.B)) IN T1(post.C = AdjustAll(pre.C, d[1], d[2], d[3]), "P04", "repl")

(***************************************************************************)
(* Views (P09)                                                             *)
(***************************************************************************)
AllViews(pre, op, res, post) ==
  IF ~Want("P09") THEN {} ELSE
  (IF op.n = "views" THEN {<<"P09", t>> : t \in ViewTags(post, res.v)} ELSE {})
  \cup LET S == Starts(post.B) IN T1(\A k \in 1..Len(post.B) : post.B[k].p = S[k] /\ post.B[k].n = k - 1, "P09", "position")
  \cup T1(post.bc = Len(post.B) /\ post.cc = EndPos(post.B) + 1 - Len(post.B), "P09", "counts")
  \cup T1(post.K = [k \in 1..Len(post.B) |-> <<"b", post.B[k].i>>] \/ \E k \in 1..Len(post.K) : post.K[k][1] # "b", "P09", "flow")

(***************************************************************************)
(* The storage below the document: rope, offset index and format runs      *)
(* (P23, P26), logged only when they are asked for                         *)
(***************************************************************************)
RopeTags(s) ==
  IF "R" \notin DOMAIN s THEN {} ELSE
  LET S == Starts(s.B)  n == Len(s.B)  R == s.R
      run(k, j) == R.f[k][j]
  IN T1(R.t = Unflat(Flat(s.B)), "P23", "rope")
     \cup T1(R.x = [k \in 1..n |-> <<"b", s.B[k].i, S[k]>>] /\ R.n = EndPos(s.B), "P23", "index")
     \cup T1(\A k \in 1..n : \A j \in 1..Len(R.f[k]) :
               /\ 0 <= run(k, j)[1] /\ run(k, j)[1] < run(k, j)[2] /\ run(k, j)[2] <= Len(s.B[k].t)
               /\ j = 1 \/ run(k, j - 1)[2] <= run(k, j)[1], "P26", "runs")
     \cup T1(\A k \in 1..n : \A j \in 2..Len(R.f[k]) :
               run(k, j - 1)[2] # run(k, j)[1] \/ run(k, j - 1)[3] # run(k, j)[3], "P26", "coalesced")

\* Highlighting is what highlighting the whole document gives, and nothing but what is shown depends on it (P22).
HlTags(pre, op, res, post) ==
  IF "H" \notin DOMAIN post THEN {} ELSE
  LET want == IF post.H.on THEN HL!HlDoc(Txt(post.B)) ELSE HL!HlNone(Txt(post.B))
  IN T1(post.H.t = want, "P22", "shown")
     \cup T1(post.H.s = want, "P22", "snapshot")
     \cup T1(op.n \notin {"hlon", "hloff", "rehl", "rehlb"} \/ (res.k = "ok" /\ res.v /\ UnchangedBut(pre, post, {"H"})), "P22", "side-effect")

(***************************************************************************)
(* Tables (P14, P15)                                                       *)
(***************************************************************************)
\* After a table was changed each cursor is in the block it was in; where that is gone, at the end of the last one before it that is left.
FollowTo(pre, post, q) ==
  IF q < 0 THEN q ELSE
  LET x == Loc(pre.B, DMin(q, EndPos(pre.B)))  S == Starts(post.B)  live0 == {k \in 1..x[1] : pre.B[k].i \in Ids(post.B)}
  IN IF live0 = {} THEN 0
     ELSE LET k == Max(live0)  j == CHOOSE j \in 1..Len(post.B) : post.B[j].i = pre.B[k].i
          IN S[j] + (IF k = x[1] THEN x[2] ELSE Len(pre.B[k].t))
TableCursors(pre, op, post) ==
  LET F == [k \in 1..Len(pre.C) |-> <<FollowTo(pre, post, pre.C[k][1]), FollowTo(pre, post, pre.C[k][2])>>]
  IN IF op.n = "itab"
     THEN LET new == TB!TableIds(post) \ TB!TableIds(pre)
              j == CHOOSE j \in 1..Len(post.B) : TB!Zone(post, post.B[j].i)[1] \in new
          IN [F EXCEPT ![op.c + 1] = <<Starts(post.B)[j], Starts(post.B)[j]>>]
     ELSE F
EditZone(pre, op) == ZoneAt(pre, DMin(pre.C[op.c+1][1], EndPos(pre.B)))
GTags(pre, op, res, post) ==
  IF ~TB!Has(post) THEN {} ELSE
  LET ok == \A j \in 1..Len(post.G) : TB!GridOk(post.G[j])
      inv == T1(ok, "P14", "grid")
             \cup T1(\A j \in 1..Len(post.G) : TB!SnapOk(post.G[j]), "P14", "snapshot")
             \cup T1(\A j \in 1..Len(post.G) : TB!ContentOk(post, post.G[j]), "P15", "cells")
             \cup T1(TB!FlowOk(post), "P15", "order")
             \cup T1(TB!FlowOk(post), "P09", "order")
      x == IF "c" \in DOMAIN op /\ op.c + 1 <= Len(pre.C) /\ pre.C[op.c+1][1] >= 0 
           THEN Loc(pre.B, DMin(DMin(pre.C[op.c+1][1], pre.C[op.c+1][2]), EndPos(pre.B))) ELSE <<1, 0>>
      act == IF op.n \in TB!TableOps THEN TB!TableTags(pre, op, res, post, x[1], x[2]) ELSE {}
  IN inv \cup
     (IF ~ok \/ inv # {} \/ res.k # "ok" THEN act
      ELSE act
       \cup (IF op.n \in TB!Structural /\ act = {} THEN T1(post.C = TableCursors(pre, op, post), "P04", "cursors") ELSE {})
       \cup (IF op.n \in TB!FormatOps THEN T1(post.C = pre.C, "P04", "cursors") ELSE {})
       \cup (IF op.n \in TB!TableOps \cup {"undo", "redo", "spt", "clear", "md", "html"} \/ Crosses(pre, op) THEN {}
             ELSE T1(TB!SameShapes(pre, post), "P15", "table-changed")
                  \cup T1(op.n \notin Texty \cup {"paste"} \/ ~TB!SameShapes(pre, post) \/ TB!InPlace(pre, post, EditZone(pre, op)), "P15", "block-moved")
                  \cup T1(op.n \in Texty \cup {"paste"} \/ pre.K = post.K, "P15", "flow-changed")))

\* A listener subscribed from the start hears what polling returns (P08).
HeardTags(s) == T1("cb" \notin DOMAIN s \/ s.cb = s.ev, "P08", "listener")

\* Resources return exactly the bytes stored under their name (P24).
ResTags(pre, op, res, post) ==
  IF ~HasRes(post) THEN {} ELSE
  LET at(n) == IF n = "a" THEN 1 ELSE 2
      W == IF op.n = "res" /\ res.k = "ok" THEN [pre.Z EXCEPT ![at(op.v)] = <<op.d>>] ELSE pre.Z
  IN T1(op.n \in {"undo", "redo"} \/ post.Z = W, "P24", "resources")
     \cup T1(op.n # "getres" \/ op.v \notin {"a", "b"} \/ res.v = pre.Z[at(op.v)], "P24", "resource")
     \cup T1(op.n # "getres" \/ op.v \in {"a", "b"} \/ (res.k = "ok" /\ res.v = <<>>), "P24", "missing-resource")
     \cup T1(op.n \notin {"res", "getres"} \/ res.k = "ok", "P24", "resource-refused")

(***************************************************************************)
(* Replacing the content (P17)                                             *)
(***************************************************************************)
Plain(ls) == [k \in 1..Len(ls) |-> [i |-> FreshB, t |-> ls[k], f |-> [j \in 1..Len(ls[k]) |-> 1], b |-> NoBF, l |-> -1]]
ResetTags(pre, op, res, post) ==
  IF op.n \notin {"spt", "clear"} THEN {} ELSE
  LET X == Plain(IF op.n = "clear" THEN <<<<>>>> ELSE Lines(op.s))  Y == post.B
  IN T1(res.k = "ok" /\ Len(X) = Len(Y) /\ SameText(X, Y) /\ SameFmt(X, Y)
          /\ \A k \in 1..Len(X) : X[k].b = Y[k].b /\ Y[k].l = -1, "P17", "content")
     \cup T1(~post.u /\ ~post.r, "P17", "history")
     \cup T1(Len(Evs(post, "RS")) = 1 /\ Evs(post, "CC") = <<>>, "P17", "announced")
     \cup T1(post.C = ClampAll(pre.C, EndPos(post.B)), "P17", "cursors")
     \cup T1(post.C = ClampAll(pre.C, EndPos(post.B)), "P04", "cursors")

(***************************************************************************)
(* Undo history (P05, P06)                                                 *)
(***************************************************************************)
Entry(b, a, g, n) == [b |-> b, a |-> a, g |-> g, n |-> n]
NoG == [k |-> "o"]
St(k) == Log[k].st
\* Merge information of a command.
MergeInfo(pre, op, e) ==
  IF op.n \in {"del", "bsp"} /\ e.k = "weak"
  THEN LET p == pre.C[op.c+1][1]  n == EndPos(pre.B) - EndPos(Log[l].st.B)
           z == IF op.n = "bsp" THEN p - n ELSE p
       IN IF n = 1 THEN [k |-> "del", np |-> z, n |-> 1, t |-> Log[l].w, back |-> op.n = "bsp", ch |-> Flat(pre.B)[z + 1], at |-> z]
          ELSE NoG
  ELSE
  IF op.n = "ins" /\ e.k = "exact" /\ Loc(pre.B, e.mv[1])[1] = Loc(pre.B, e.mv[1] + e.mv[2])[1]
  THEN [k |-> "ins", np |-> e.mv[4], n |-> Len(op.s), last |-> op.s[Len(op.s)], first |-> op.s[1],
                        at |-> e.mv[1], sel |-> e.mv[2] > 0, t |-> Log[l].w]
  ELSE IF op.n \in {"del", "bsp", "rms"} /\ e.k = "exact" /\ e.mv[2] = 1
       THEN [k |-> "del", np |-> e.mv[1], n |-> 1, t |-> Log[l].w,
             back |-> IF op.n = "bsp" /\ pre.C[op.c+1][1] = pre.C[op.c+1][2] THEN TRUE
                      ELSE IF op.n = "del" /\ pre.C[op.c+1][1] = pre.C[op.c+1][2] THEN FALSE
                      ELSE pre.C[op.c+1][1] > pre.C[op.c+1][2],
             ch |-> Flat(pre.B)[e.mv[1] + 1], at |-> e.mv[1]]
  ELSE NoG
\* Commands merge when the later one ran at most this many milliseconds after the earlier one.  The log brackets
\* every call by a time before and a time after it, so the distance is known up to an interval.
Window == 2000
TooLate(x, y) == y.t[1] - x.t[2] > Window
InTime(x, y) == y.t[2] - x.t[1] <= Window
Mergeable(x, y) ==
  /\ x.k = y.k /\ x.k # "o"
  /\ CASE x.k = "ins" -> /\ ~y.sel /\ y.at = x.np /\ x.n + y.n <= 200
                         /\ ~(Boundary(x.last) /\ ~Boundary(y.first))
       [] x.k = "del" -> /\ x.back = y.back
                         /\ (IF x.back THEN y.at + 1 = x.np ELSE y.at = x.np)
                         /\ x.n + 1 <= 200 /\ ~Boundary(x.ch)
       [] OTHER -> FALSE
CanMerge(x, y) == Mergeable(x, y) /\ ~TooLate(x, y)
\* Whether they merged cannot be told from the log.
Unsure(x, y) == Mergeable(x, y) /\ ~TooLate(x, y) /\ ~InTime(x, y)
Merged(x, y) == IF x.k = "ins" THEN [x EXCEPT !.np = y.np, !.n = x.n + y.n, !.last = y.last, !.t = y.t]
                ELSE [x EXCEPT !.np = y.np, !.n = x.n + 1, !.ch = y.ch, !.t = y.t]

\* Does this call add to the undo history?
Adds(pre, op, res, post, e) ==
  IF res.k # "ok" THEN FALSE
  ELSE CASE op.n \in {"del", "bsp", "rms"} -> (IF e.k = "exact" THEN e.mv[2] > 0 ELSE Crosses(pre, op) \/ pre.B # post.B)
         [] op.n \in {"ins", "insf", "blk", "il", "setf", "mrgf", "setb", "cl", "addl", "addcur", "reml", "remcur", "rli", "setl", "setcl",
                      "paste", "md", "html", "img", "title", "dir", "wrap", "res"} \cup TB!TableOps -> TRUE
         [] op.n = "repl" -> res.v > 0
         [] OTHER -> FALSE

NewUs(pre, op, res, post, e) ==
  LET g == MergeInfo(pre, op, e)
  IN IF us # <<>> /\ CanMerge(Last(us).g, g)
     THEN [us EXCEPT ![Len(us)] = Entry(Last(us).b, l, Merged(Last(us).g, g), op.n)]
     ELSE Append(us, Entry(l - 1, l, g, op.n))

UndoTags(pre, op, res, post) ==
  IF ~live THEN {} ELSE
  LET stack == IF op.n = "undo" THEN us ELSE rs
      goal == IF op.n = "undo" THEN St(Last(stack).b) ELSE St(Last(stack).a)
      d == Diff(Flat(pre.B), Flat(post.B))
  IN IF stack = <<>> THEN T1(res.k = "ok" /\ post.B = pre.B /\ post.L = pre.L /\ post.T = pre.T /\ post.C = pre.C, "P06", "empty-history")
                         \cup T1(res.k = "ok" /\ post.B = pre.B /\ post.L = pre.L /\ post.T = pre.T /\ post.C = pre.C, "P05", "empty-history")
     ELSE T1(res.k = "ok", "P05", "refused")
          \cup T1(SameDoc(goal, post), "P05", op.n)
          \cup T1((~TB!HasTables(goal) /\ ~TB!HasTables(pre)) \/ SameDoc(goal, post), "P15", op.n)
          \cup T1(SameTables(goal, post), "P14", op.n)
          \cup T1(SameRes(goal, post) /\ goal.T = post.T, "P24", op.n)
          \cup T1(SameText(goal.B, post.B), "P06", op.n)
          \cup T1(Last(stack).n # "repl" \/ SameDoc(goal, post), "P12", op.n)
          \cup T1(Last(stack).n # "paste" \/ SameDoc(goal, post), "P16", op.n)
          \cup T1(post.C = AdjustAll(pre.C, d[1], d[2], d[3]), "P04", op.n)

Flags(post, u, r) == T1(post.u = (u # <<>>) /\ post.r = (r # <<>>), "P06", "can-undo")

(***************************************************************************)
(* Behaviour                                                               *)
(***************************************************************************)
Report(S, tr) == \A v \in S : (~Want(v[1])) \/ PrintT(<<"@@V", v[1], tr, l, v[2]>>)

Start == /\ Log[l].op.n = "start"
         /\ us' = <<>> /\ rs' = <<>> /\ grp' = [d |-> 0, b |-> 0, c |-> 0] /\ live' = TRUE /\ resv' = <<>> /\ frags' = <<>>
         /\ Report(RopeTags(Log[l].st) \cup T1(ListInv(Log[l].st), "P13", "list-invariant") \cup T1(IdsDistinct(Log[l].st.B), "P03", "ids"), Log[l].tr)

Line ==
  LET x == Log[l]  op == x.op  res == x.res  post == x.st  pre == Log[l-1].st
      e == Expect(pre, op)
      adds == live /\ Adds(pre, op, res, post, e)
      ut == IF op.n \in {"undo", "redo"} THEN UndoTags(pre, op, res, post) ELSE {}
      nus == CASE op.n \in {"clr", "spt", "clear"} -> <<>>
               [] op.n = "undo" -> IF us = <<>> THEN us ELSE Front(us)
               [] op.n = "redo" -> IF rs = <<>> THEN us ELSE Append(us, Last(rs))
               [] op.n = "eend" /\ grp.d = 1 /\ grp.c > 0 -> Append(us, Entry(grp.b, l, NoG, "group"))
               [] adds /\ grp.d = 0 -> NewUs(pre, op, res, post, e)
               [] OTHER -> us
      nrs == CASE op.n \in {"clr", "spt", "clear"} -> <<>>
               [] op.n = "undo" -> IF us = <<>> THEN rs ELSE Append(rs, Last(us))
               [] op.n = "redo" -> IF rs = <<>> THEN rs ELSE Front(rs)
               [] op.n = "eend" /\ grp.d = 1 /\ grp.c > 0 -> <<>>
               [] adds /\ grp.d = 0 -> <<>>
               [] OTHER -> rs
      ngrp == CASE op.n = "ebeg" /\ res.k = "ok" -> [grp EXCEPT !.d = @ + 1, !.b = IF grp.d = 0 THEN l - 1 ELSE @, !.c = IF grp.d = 0 THEN 0 ELSE @]
                [] op.n = "eend" /\ res.k = "ok" -> [grp EXCEPT !.d = IF @ > 0 THEN @ - 1 ELSE 0]
                [] adds /\ grp.d > 0 -> [grp EXCEPT !.c = @ + 1]
                [] OTHER -> grp
      dim == adds /\ grp.d = 0 /\ us # <<>> /\ Unsure(Last(us).g, MergeInfo(pre, op, e))
      bad == {v \in ut : v[1] \in {"P05", "P06"}}
      fl == IF live /\ bad = {} /\ res.k # "panic" /\ ~dim THEN Flags(post, nus, nrs) ELSE {}
      V == (IF op.n \in {"undo", "redo"} THEN ut ELSE {}) \cup fl \cup ResetTags(pre, op, res, post)
           \cup (IF res.k = "panic" THEN {} ELSE RopeTags(post) \cup HeardTags(post) \cup HlTags(pre, op, res, post) \cup ResTags(pre, op, res, post) \cup GTags(pre, op, res, post) \cup NavTags(pre, op, res, post) \cup SearchTags(pre, op, res, post)
                  \cup ReplCursors(pre, op, res, post) \cup FragTags(pre, op, res, post) \cup AllViews(pre, op, res, post))
           \cup (IF op.n \in {"undo", "redo", "spt", "clear", "repl"}
                 THEN {v \in Step(pre, op, res, post) : v[1] \notin {"P01", "P02"}} ELSE Step(pre, op, res, post))
  IN /\ us' = nus /\ rs' = nrs /\ grp' = ngrp
     /\ live' = (live /\ bad = {} /\ fl = {} /\ res.k # "panic" /\ ~dim)
     /\ resv' = resv
     /\ frags' = IF op.n \in {"copy", "fragpt", "fragdoc"} /\ res.k = "ok" THEN Append(frags, Copied(pre, op)) ELSE frags
     /\ Report(V, x.tr)

Init == l = 1 /\ us = <<>> /\ rs = <<>> /\ grp = [d |-> 0, b |-> 0, c |-> 0] /\ live = TRUE /\ resv = <<>> /\ frags = <<>>
Next == \/ /\ l <= Len(Log) /\ l' = l + 1 /\ IF Log[l].op.n = "start" THEN Start ELSE Line
        \/ /\ l = Len(Log) + 1 /\ l' = l + 1 /\ UNCHANGED <<us, rs, grp, live, resv, frags>>
           /\ PrintT(<<"@@END", Len(Log)>>)
Spec == Init /\ [][Next]_vars
=============================================================================
