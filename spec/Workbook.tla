------------------------------ MODULE Workbook ------------------------------
(* Several whole documents side by side: sheets, text, metadata, variables, *)
(* styles, stored copies, and what moves between the documents (C29).       *)
(*  kind, sheets, text, meta, vars, sty : slot -> that part of the document *)
(*  blobs : what was stored (bytes or file) under a name                    *)
(*  v     : held objects that do not show the document any more (empty)     *)
(* A sheet is [n, m, sp, rv, cv]: name, cells, spanned areas, row and       *)
(* column styles.                                                           *)
EXTENDS ListOps, TLC
Slots == {"1", "2", "3"}
Names == {"A", "B", "C"}
All(x) == [d \in Slots |-> x]
NoMeta == [title |-> "", keys |-> <<>>, tags |-> <<>>, cnt |-> 0]
NoVars == [uf |-> <<>>, va |-> <<>>]
NoSty == [c |-> <<>>, a |-> <<>>]
Empty(k) == [kind |-> k, sheets |-> <<>>, text |-> <<>>, meta |-> NoMeta, vars |-> NoVars, sty |-> NoSty]
WorkbookNull == [kind |-> All(""), sheets |-> All(<<>>), text |-> All(<<>>), meta |-> All(NoMeta), vars |-> All(NoVars), sty |-> All(NoSty),
                 blobs |-> [b \in Names |-> Empty("")], v |-> <<>>]
WOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
WOk(s) == { WOut("ok", <<>>, s) }
WRej(s) == { WOut("rej", <<>>, s) }

DocOf(s, d) == [kind |-> s.kind[d], sheets |-> s.sheets[d], text |-> s.text[d], meta |-> s.meta[d], vars |-> s.vars[d], sty |-> s.sty[d]]
PutDoc(s, d, x) == [s EXCEPT !.kind[d] = x.kind, !.sheets[d] = x.sheets, !.text[d] = x.text, !.meta[d] = x.meta, !.vars[d] = x.vars, !.sty[d] = x.sty]

\* sequences of <<key, value>> as maps
MHas(m, k) == \E i \in 1..Len(m) : m[i][1] = k
MPut(m, k, v) == IF MHas(m, k) THEN [i \in 1..Len(m) |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]] ELSE Append(m, <<k, v>>)
MDel(m, k) == SelectSeq(m, LAMBDA e : e[1] # k)

\* sheets
Fill(n, x) == [i \in 1..n |-> x]
NewSheet(n, h, w) == [n |-> n, m |-> Fill(h, Fill(w, "")), sp |-> <<>>, rv |-> Fill(h, ""), cv |-> Fill(w, "")]
NR(t) == Len(t.m)
NC(t) == Len(t.cv)
InsRow(t, p) == [t EXCEPT !.m = LInsert(@, p, Fill(NC(t), "")), !.rv = LInsert(@, p, "")]
DelRow(t, p) == [t EXCEPT !.m = LDelete(@, p), !.rv = LDelete(@, p)]
InsCol(t, p) == [t EXCEPT !.m = [i \in 1..NR(t) |-> LInsert(t.m[i], p, "")], !.cv = LInsert(@, p, "")]
DelCol(t, p) == [t EXCEPT !.m = [i \in 1..NR(t) |-> LDelete(t.m[i], p)], !.cv = LDelete(@, p)]
IsSheet(s, d, i) == i \in 1..Len(s.sheets[d])
OnSheet(s, op, t) == WOk([s EXCEPT !.sheets[op.d][op.i] = t])

\* the sheet i of d becomes the last one of e
MoveSheet(s, d, i, e) ==
    LET t == s.sheets[d][i]
        s1 == [s EXCEPT !.sheets[d] = LDelete(@, i)]
    IN [s1 EXCEPT !.sheets[e] = Append(@, t)]
\* the sheet i of d takes the place of sheet j of e
TakePlace(s, d, i, e, j) ==
    IF d = e /\ i = j THEN s
    ELSE LET t == s.sheets[d][i]
             s1 == [s EXCEPT !.sheets[e][j] = t]
         IN [s1 EXCEPT !.sheets[d] = LDelete(@, i)]
MoveText(s, d, i, e) ==
    LET t == s.text[d][i]
        s1 == [s EXCEPT !.text[d] = LDelete(@, i)]
    IN [s1 EXCEPT !.text[e] = Append(@, t)]

WorkbookApply(s, op) ==
  CASE op.a = "start" -> WOk([WorkbookNull EXCEPT !.blobs = [b \in Names |-> IF b \in DOMAIN op.blobs THEN op.blobs[b] ELSE Empty("")]])
    [] op.a = "new" -> WOk(PutDoc(s, op.d, Empty(op.k)))
    [] op.a = "load" -> IF s.blobs[op.b].kind = "" THEN {} ELSE WOk(PutDoc(s, op.d, s.blobs[op.b]))
    [] op.a = "store" -> WOk([s EXCEPT !.blobs[op.b] = DocOf(s, op.d)])
    [] op.a = "drop" -> WOk(PutDoc(s, op.d, Empty("")))
    [] op.a = "sheetnew" -> WOk([s EXCEPT !.sheets[op.d] = LInsert(@, op.p, NewSheet(op.n, op.h, op.w))])
    [] op.a = "sheetcopy" -> WOk([s EXCEPT !.sheets[op.e] = Append(@, [s.sheets[op.d][op.i] EXCEPT !.n = op.n])])
    [] op.a = "sheetmove" -> WOk(MoveSheet(s, op.d, op.i, op.e))
    [] op.a = "sheetset" -> WOk(TakePlace(s, op.d, op.i, op.e, op.j))
    [] op.a = "sheetdel" -> WOk([s EXCEPT !.sheets[op.d] = LDelete(@, op.i)])
    [] op.a = "rename" -> OnSheet(s, op, [s.sheets[op.d][op.i] EXCEPT !.n = op.n])
    [] op.a = "cell" -> OnSheet(s, op, [s.sheets[op.d][op.i] EXCEPT !.m[op.r + 1][op.c + 1] = op.x])
    [] op.a = "take" -> WOk([s EXCEPT !.sheets[op.d][op.i].m[op.r + 1][op.c + 1] = s.sheets[op.e][op.j].m[op.r2 + 1][op.c2 + 1]])
    [] op.a = "insrow" -> OnSheet(s, op, InsRow(s.sheets[op.d][op.i], op.p))
    [] op.a = "delrow" -> OnSheet(s, op, DelRow(s.sheets[op.d][op.i], op.p + 1))
    [] op.a = "inscol" -> OnSheet(s, op, InsCol(s.sheets[op.d][op.i], op.p))
    [] op.a = "delcol" -> OnSheet(s, op, DelCol(s.sheets[op.d][op.i], op.p + 1))
    [] op.a = "span" -> OnSheet(s, op, [s.sheets[op.d][op.i] EXCEPT !.sp = << <<op.r, op.c, op.h, op.w>> >>])
    [] op.a = "unspan" -> OnSheet(s, op, [s.sheets[op.d][op.i] EXCEPT !.sp = <<>>])
    [] op.a = "rowstyle" -> OnSheet(s, op, [s.sheets[op.d][op.i] EXCEPT !.rv[op.r + 1] = op.x])
    [] op.a = "colstyle" -> OnSheet(s, op, [s.sheets[op.d][op.i] EXCEPT !.cv[op.c + 1] = op.x])
    [] op.a = "wipe" -> OnSheet(s, op, NewSheet(s.sheets[op.d][op.i].n, op.h, op.w))
    [] op.a = "text" -> WOk([s EXCEPT !.text[op.d] = Append(@, op.x)])
    [] op.a = "textmove" -> WOk(MoveText(s, op.d, op.i, op.e))
    [] op.a = "more" -> WOk([s EXCEPT !.text[op.d][op.i] = @ \o op.x])
    [] op.a = "textdel" -> WOk([s EXCEPT !.text[op.d] = LDelete(@, op.i)])
    [] op.a = "title" -> WOk([s EXCEPT !.meta[op.d].title = op.x])
    [] op.a = "key" -> WOk([s EXCEPT !.meta[op.d].keys = IF LHas(@, op.x) THEN @ ELSE Append(@, op.x)])
    [] op.a = "nokeys" -> WOk([s EXCEPT !.meta[op.d].keys = <<>>])
    [] op.a = "tag" -> WOk([s EXCEPT !.meta[op.d].tags = MPut(@, op.n, op.x)])
    [] op.a = "untag" -> IF MHas(s.meta[op.d].tags, op.n) THEN WOk([s EXCEPT !.meta[op.d].tags = MDel(@, op.n)]) ELSE WRej(s)
    [] op.a = "count" -> WOk([s EXCEPT !.meta[op.d].cnt = op.x])
    [] op.a = "uf" -> IF MHas(s.vars[op.d].uf, op.n) THEN WOk([s EXCEPT !.vars[op.d].uf = MPut(@, op.n, op.x)]) ELSE WRej(s)
    [] op.a = "va" -> IF MHas(s.vars[op.d].va, op.n) THEN WOk([s EXCEPT !.vars[op.d].va = MPut(@, op.n, op.x)]) ELSE WRej(s)
    [] op.a = "style" -> WOk([s EXCEPT !.sty[op.d][op.w] = MPut(@, op.n, op.x)])
    [] op.a = "inject" -> WOk([s EXCEPT !.sty[op.d].c = Append(@, <<op.n, op.x>>)])
    \* many other objects are made and dropped
    [] op.a = "crowd" -> { WOut("ok", <<>>, s) }
    [] op.a = "default" -> { WOut("ok", <<"NEWTABLE", 10, 10, 0, "", "", 0, 0>>, s) }
    [] OTHER -> {}

\* the specification itself: sheets are rectangular with infos for every row and column
SheetOk(t) == NR(t) >= 1 /\ Len(t.rv) = NR(t) /\ \A i \in 1..NR(t) : Len(t.m[i]) = NC(t)
WorkbookOk(s) == /\ \A d \in Slots : \A i \in 1..Len(s.sheets[d]) : SheetOk(s.sheets[d][i])
                 /\ \A d \in Slots : s.kind[d] = "" => DocOf(s, d) = Empty("")
\* documents an operation may change
Touched(op) == CASE op.a \in {"start", "store", "default"} -> {}
                 [] op.a = "sheetcopy" -> {op.e}
                 [] op.a \in {"sheetmove", "sheetset", "textmove"} -> {op.d, op.e}
                 [] OTHER -> {op.d}
=============================================================================
