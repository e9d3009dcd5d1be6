------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Documents with tables.  A state's G is the list of its tables in the    *)
(* order of the flow K; each lists its cells with their blocks.  The       *)
(* document's block list B has every block, those of a table row by row at *)
(* the table's place, so positions and text edits mean what they mean      *)
(* anywhere (Doc).  Here is what is particular: which text an edit may     *)
(* touch, what the operations on a table do, and what always holds.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
GR == INSTANCE Grid

Has(s) == "G" \in DOMAIN s
HasTables(s) == Has(s) /\ s.G # <<>>
BIds(B) == {B[k].i : k \in 1..Len(B)}
CellsOf(t) == {GR!Rect(t.cells[j].i, t.cells[j].r, t.cells[j].c, t.cells[j].rs, t.cells[j].cs) : j \in 1..Len(t.cells)}
TableIds(s) == {s.G[j].i : j \in 1..Len(s.G)}
TableAt(s, id) == s.G[CHOOSE j \in 1..Len(s.G) : s.G[j].i = id]
CellAt(t, id) == t.cells[CHOOSE j \in 1..Len(t.cells) : t.cells[j].i = id]
CellIds(t) == {t.cells[j].i : j \in 1..Len(t.cells)}
\* The cell a block is in: <<table, cell>>, or <<0, 0>> in the text outside tables.
Zone(s, id) ==
   LET S == {<<j, k>> \in UNION {{j} \X (1..Len(s.G[j].cells)) : j \in 1..Len(s.G)} : id \in BIds(s.G[j].cells[k].B)}
   IN IF S = {} THEN <<0, 0>> ELSE LET z == CHOOSE z \in S : TRUE IN <<s.G[z[1]].i, s.G[z[1]].cells[z[2]].i>>
Outside(s) == SelectSeq(s.B, LAMBDA b : Zone(s, b.i) = <<0, 0>>)

(***************************************************************************)
(* What always holds                                                       *)
(***************************************************************************)
SameBlock(x, y) == x.i = y.i /\ x.t = y.t /\ x.f = y.f /\ x.b = y.b /\ x.l = y.l
Before(x, y) == x.r < y.r \/ (x.r = y.r /\ x.c < y.c)
RowMajor(t) == SortSeq(t.cells, Before)
BlocksOf(s, k) ==      \* ids of the blocks of a flow element
   IF k[1] = "b" THEN <<k[2]>>
   ELSE IF k[1] = "t" /\ k[2] \in TableIds(s)
        THEN FoldLeft(LAMBDA a, x : a \o [j \in 1..Len(x.B) |-> x.B[j].i], <<>>, RowMajor(TableAt(s, k[2])))
        ELSE <<>>
FlowIds(s) == FoldLeft(LAMBDA a, k : a \o BlocksOf(s, k), <<>>, s.K)
GridOk(t) ==
   /\ GR!IsGrid(t.r, t.c, CellsOf(t))
   /\ Cardinality(CellIds(t)) = Len(t.cells)
   /\ Len(t.lk) = t.r /\ \A i \in 1..t.r : Len(t.lk[i]) = t.c
   /\ \A i \in 1..t.r, j \in 1..t.c :
         t.lk[i][j] = LET S == {x \in CellsOf(t) : x.r = i - 1 /\ x.c = j - 1} IN IF S = {} THEN -1 ELSE (CHOOSE x \in S : TRUE).k
SnapOk(t) ==
   /\ t.sn.r = t.r /\ t.sn.c = t.c /\ Len(t.sn.cells) = Len(t.cells)
   /\ {<<x.r, x.c, x.rs, x.cs, x.t>> : x \in {t.sn.cells[j] : j \in 1..Len(t.sn.cells)}}
      = {<<x.r, x.c, x.rs, x.cs, [k \in 1..Len(x.B) |-> x.B[k].t]>> : x \in {t.cells[j] : j \in 1..Len(t.cells)}}
ContentOk(s, t) ==
   \A j \in 1..Len(t.cells) : LET x == t.cells[j] IN
      /\ Len(x.B) >= 1
      /\ \A k \in 1..Len(x.B) : /\ x.B[k].tc = <<t.i, x.r, x.c>>
                                /\ \E y \in 1..Len(s.B) : SameBlock(s.B[y], x.B[k])
FlowOk(s) ==
   /\ [j \in 1..Len(s.G) |-> s.G[j].i] = LET T == SelectSeq(s.K, LAMBDA k : k[1] = "t") IN [j \in 1..Len(T) |-> T[j][2]]
   /\ FlowIds(s) = [k \in 1..Len(s.B) |-> s.B[k].i]

(***************************************************************************)
(* Text edits                                                              *)
(***************************************************************************)
\* A table without its text: shape, identities and formats.
Shape(t) == [i |-> t.i, r |-> t.r, c |-> t.c, g |-> t.g, w |-> t.w,
             cells |-> {[i |-> x.i, r |-> x.r, c |-> x.c, rs |-> x.rs, cs |-> x.cs, g |-> x.g] : x \in {t.cells[j] : j \in 1..Len(t.cells)}}]
SameShapes(pre, post) == [j \in 1..Len(pre.G) |-> Shape(pre.G[j])] = [j \in 1..Len(post.G) |-> Shape(post.G[j])]
\* Every block stays where it was, new ones are where the edit is.
InPlace(pre, post, z) ==
   \A k \in 1..Len(post.B) : LET id == post.B[k].i IN
      Zone(post, id) = IF id \in BIds(pre.B) THEN Zone(pre, id) ELSE z

(***************************************************************************)
(* Operations on tables: what they accept and the table afterwards         *)
(***************************************************************************)
StructOps == {"irow", "icol", "drow", "dcol", "mcell", "scell"}
Structural == StructOps \cup {"itab", "rtab"}
FormatOps == {"tfmt", "cfmt"}
TableOps == Structural \cup FormatOps
Target(s, op) ==     \* the table it is about, or 0
   CASE op.n \in {"irow", "icol", "drow", "dcol", "mcell", "rtab", "tfmt"} -> IF op.t \in TableIds(s) THEN op.t ELSE 0
     [] op.n \in {"scell", "cfmt"} -> LET S == {j \in 1..Len(s.G) : op.b \in CellIds(s.G[j])}
                                      IN IF S = {} THEN 0 ELSE s.G[CHOOSE j \in S : TRUE].i
     [] OTHER -> 0
Accepts(s, op) ==
   IF op.n = "itab" THEN op.r >= 1 /\ op.k >= 1
   ELSE IF Target(s, op) = 0 THEN FALSE
   ELSE LET t == TableAt(s, Target(s, op))  C == CellsOf(t) IN
     CASE op.n = "irow" -> op.i <= t.r [] op.n = "icol" -> op.i <= t.c
       [] op.n = "drow" -> op.i < t.r /\ t.r > 1 [] op.n = "dcol" -> op.i < t.c /\ t.c > 1
       [] op.n = "mcell" -> GR!CanMerge(t.r, t.c, C, op.r1, op.c1, op.r2, op.c2)
       [] op.n = "scell" -> GR!CanSplit(CHOOSE x \in C : x.k = op.b, op.r, op.k)
       [] OTHER -> TRUE
\* <<rows, columns, cells>> afterwards; cells numbered 0 are new.
After(t, op) ==
   LET C == CellsOf(t) IN
   CASE op.n = "irow" -> <<t.r + 1, t.c, GR!InsRows(t.c, C, op.i)>>
     [] op.n = "icol" -> <<t.r, t.c + 1, GR!Flip(GR!InsRows(t.r, GR!Flip(C), op.i))>>
     [] op.n = "drow" -> <<t.r - 1, t.c, GR!DelRows(C, op.i)>>
     [] op.n = "dcol" -> <<t.r, t.c - 1, GR!Flip(GR!DelRows(GR!Flip(C), op.i))>>
     [] op.n = "mcell" -> <<t.r, t.c, GR!MergeCells(C, op.r1, op.c1, op.r2, op.c2)>>
     [] op.n = "scell" -> <<t.r, t.c, GR!SplitCell(C, CHOOSE x \in C : x.k = op.b, op.r, op.k)>>
     [] OTHER -> <<t.r, t.c, C>>
NoBlock(b) == b.t = <<>> /\ b.l = -1 /\ b.b = [k \in 1..Len(b.b) |-> "-"]
NewCell(x, old) == Len(x.B) = 1 /\ NoBlock(x.B[1]) /\ x.B[1].i \notin old /\ \A k \in 1..Len(x.g) : x.g[k] = "-"
SameContent(x, y) == Len(x.B) = Len(y.B) /\ \A k \in 1..Len(x.B) : SameBlock(x.B[k], y.B[k])
\* The table is as wanted: kept cells with their content and format, new ones empty.
TableAs(want, old, t, oldIds) ==
   /\ t.r = want[1] /\ t.c = want[2]
   /\ {IF x.k \in CellIds(old) THEN x ELSE [x EXCEPT !.k = 0] : x \in CellsOf(t)} = want[3]
   /\ \A j \in 1..Len(t.cells) : LET x == t.cells[j] IN
        IF x.i \in CellIds(old) THEN SameContent(CellAt(old, x.i), x) /\ CellAt(old, x.i).g = x.g ELSE NewCell(x, oldIds)
\* Blocks as they are shown in documents without their position.
Bare(b) == [i |-> b.i, t |-> b.t, f |-> b.f, b |-> b.b, l |-> b.l]
SameOutside(pre, post) ==
   LET X == Outside(pre)  Y == Outside(post) IN Len(X) = Len(Y) /\ \A k \in 1..Len(X) : Bare(X[k]) = Bare(Y[k])
OthersSame(pre, post, id) ==
   LET strip(s) == SelectSeq(s.G, LAMBDA t : t.i # id) IN strip(pre) = strip(post)
Over(v, d) == [k \in 1..Len(v) |-> IF d[k] # "-" THEN d[k] ELSE v[k]]
\* Where a new table goes: before the block the cursor is at the start of, else after it; a cursor in a table: after that table.
Place(pre, k, off) ==          \* number of flow elements before it
   LET z == Zone(pre, pre.B[k].i)
       at == CHOOSE j \in 1..Len(pre.K) : IF z = <<0, 0>> THEN pre.K[j] = <<"b", pre.B[k].i>> ELSE pre.K[j] = <<"t", z[1]>>
   IN IF z = <<0, 0>> /\ off = 0 THEN at - 1 ELSE at
\* A document always has a block: where there is nothing but one table, an empty one takes its place.
Alone(s) == Len(s.G) = 1 /\ Outside(s) = <<>>
TableTags(pre, op, res, post, k, off) ==
   LET T1(c, p, t) == IF c THEN {} ELSE {<<p, t>>}
       id == Target(pre, op)
       oldIds == BIds(pre.B)
       shape(c) == T1(c, "P14", "table") \cup T1(c, "P15", "table")
   IN
   IF res.k = "panic" THEN {}
   ELSE IF ~Accepts(pre, op) THEN T1(res.k = "err", "P14", "accepted")
   ELSE T1(res.k = "ok", "P14", "refused") \cup
   (IF res.k # "ok" THEN {} ELSE
    T1(SameOutside(pre, post) \/ (op.n = "rtab" /\ Alone(pre)), "P15", "text-outside") \cup
    (CASE op.n = "itab" ->
            LET new == {post.G[j].i : j \in 1..Len(post.G)} \ TableIds(pre)
                t == TableAt(post, CHOOSE x \in new : TRUE)
                p == Place(pre, k, off)
            IN T1(Cardinality(new) = 1, "P14", "one-table") \cup
               (IF Cardinality(new) # 1 THEN {} ELSE
                shape(/\ res.v = t.i /\ t.r = op.r /\ t.c = op.k
                      /\ {[x EXCEPT !.k = 0] : x \in CellsOf(t)} = GR!Fresh(op.r, op.k)
                      /\ \A j \in 1..Len(t.cells) : NewCell(t.cells[j], oldIds))
                \cup T1(OthersSame(pre, post, t.i), "P15", "other-tables")
                \cup T1(post.K = SubSeq(pre.K, 1, p) \o <<<<"t", t.i>>>> \o SubSeq(pre.K, p + 1, Len(pre.K)), "P15", "place"))
       [] op.n = "rtab" -> T1(id \notin TableIds(post) /\ OthersSame(pre, post, id), "P15", "removed")
                           \cup T1(IF Alone(pre) THEN Len(post.B) = 1 /\ NoBlock(post.B[1]) /\ post.B[1].i \notin oldIds /\ post.K = <<<<"b", post.B[1].i>>>>
                                   ELSE post.K = SelectSeq(pre.K, LAMBDA x : x # <<"t", id>>), "P15", "place")
       [] op.n \in StructOps ->
            T1(id \in TableIds(post), "P14", "table-gone") \cup
            (IF id \notin TableIds(post) THEN {} ELSE
             shape(TableAs(After(TableAt(pre, id), op), TableAt(pre, id), TableAt(post, id), oldIds) /\ TableAt(pre, id).g = TableAt(post, id).g)
             \cup T1(OthersSame(pre, post, id) /\ post.K = pre.K, "P15", "other-tables"))
       [] op.n = "tfmt" -> T1(id \in TableIds(post) /\ OthersSame(pre, post, id) /\ TableAt(post, id) = [TableAt(pre, id) EXCEPT !.g = Over(@, op.d)], "P15", "table-format")
       [] op.n = "cfmt" -> T1(post.G = [j \in 1..Len(pre.G) |-> [pre.G[j] EXCEPT !.cells =
                                 [m \in 1..Len(@) |-> IF @[m].i = op.b THEN [@[m] EXCEPT !.g = Over(@, op.d)] ELSE @[m]]]], "P15", "cell-format")
       [] OTHER -> {}))
=============================================================================
