------------------------------- MODULE Copies -------------------------------
(* Several tables: originals, copies, copies of copies.                    *)
(*  (a table need not have a name: "")                                     *)
(*  tabs : sequence of [nm, x, m, ri, ci, cx, ex, sp]  (name, own          *)
(*         properties, cells, row and column infos, other children,        *)
(*         spans); an operation on one table changes that table only.      *)
(*  x    : <<style name, print, protected, key>>; the key is told by the   *)
(*         number of the first table which has the same one ("0" no key)   *)
EXTENDS Table, TLC

CopiesNull == [tabs |-> <<>>]
COut(r, s) == [r |-> r, q |-> <<>>, s |-> s]
NoSpans(n, k) == [i \in 1..n |-> [j \in 1..k |-> <<1, 1>>]]
NoX == <<"", "false", "false", "0">>
AsTable(t) == [m |-> t.m, ri |-> t.ri, ci |-> t.ci, cx |-> t.cx, held |-> <<>>, ex |-> t.ex, v |-> <<>>]
Tab(nm, x, a) == [nm |-> nm, x |-> x, m |-> a.m, ri |-> a.ri, ci |-> a.ci, cx |-> a.cx, ex |-> a.ex, sp |-> NoSpans(NR(a), NC(a))]
\* tables with the same key, numbered by the first one of them
Canon(tabs) == [k \in 1..Len(tabs) |->
                  IF tabs[k].x[4] = "0" THEN tabs[k]
                  ELSE [tabs[k] EXCEPT !.x[4] = ToString(CHOOSE j \in 1..k : tabs[j].x[4] = @ /\ \A i \in 1..(j - 1) : tabs[i].x[4] # @)]]
NewKey == "new"
SetX(s, k, x) == [tabs |-> Canon([s.tabs EXCEPT ![k].x = x])]
\* each of the own properties may be kept or not
Dropped(x) == { [i \in 1..4 |-> IF i \in keep THEN x[i] ELSE NoX[i]] : keep \in SUBSET (1..4) }
HasSpan(t) == \E i \in 1..Len(t.sp), j \in 1..Len(t.sp[1]) : t.sp[i][j] # <<1, 1>>
FromTable(t, x) == [t EXCEPT !.m = x.m, !.ri = x.ri, !.ci = x.ci,
                             !.cx = x.cx, !.ex = x.ex,
                             !.sp = IF NR(x) = NR(t) /\ NC(x) = NC(t) THEN t.sp ELSE NoSpans(NR(x), NC(x))]
Fresh(t) == ~HasSpan(t)
Structural == {"append_rows", "append_columns", "insert_rows", "insert_columns", "delete_rows", "delete_columns", "reset", "clear"}
SpanFree(t, p, size) ==
    \A i \in 1..NR(t), j \in 1..NC(t) :
        LET a == t.sp[i][j]
        IN \* areas do not meet
           (a # <<1, 1>>) => (i + a[1] - 1 < p[1] \/ i > p[1] + size[1] - 1 \/ j + a[2] - 1 < p[2] \/ j > p[2] + size[2] - 1)
Covered(t, p) == \E i \in 1..NR(t), j \in 1..NC(t) :
                    LET a == t.sp[i][j] IN a # <<1, 1>> /\ <<i, j>> # p /\ p[1] \in i..(i + a[1] - 1) /\ p[2] \in j..(j + a[2] - 1)

CopiesApply(s, op) ==
  CASE op.a = "new" -> { COut("ok", [tabs |-> Append(s.tabs, Tab(op.nm, NoX, Blank(op.nr, op.nc)))]) }
    [] op.a = "load" ->                \* op.x: style name, print, protected, key
         { COut("ok", [tabs |-> Canon(Append(s.tabs, Tab(op.nm, op.x, t)))]) : t \in Loaded(op.rows, op.ri, op.ci, op.ex) }
    [] op.a = "copy" ->
         { COut("ok", [tabs |-> Append(s.tabs, [s.tabs[op.k] EXCEPT !.nm = IF op.nm = "#none" THEN "CopyOf" \o @ ELSE op.nm])]) }
         \cup IF op.nm = "#none" /\ s.tabs[op.k].nm = "" THEN { COut("ok", [tabs |-> Append(s.tabs, s.tabs[op.k])]) } ELSE {}
    [] op.a = "on" ->                  \* any table operation on table k
         LET t == s.tabs[op.k]
         IN IF HasSpan(t) /\ op.op.a \in Structural \cup {"set_cell", "copy_cell"} THEN {}
            ELSE { COut(o.r, SetX([s EXCEPT !.tabs[op.k] = FromTable(t, o.s)], op.k, x)) :
                   o \in TableApply(AsTable(t), op.op),
                   x \in IF op.op.a \in {"reset", "clear"} /\ TableApply(AsTable(t), op.op) # TRej(AsTable(t))
                         THEN Dropped(t.x) ELSE {t.x} }
    [] op.a = "assign" ->              \* tables[k][i, j] = tables[k2][i2, j2], cells outside spans
         LET t == s.tabs[op.k]  u == s.tabs[op.k2]
         IN IF HasSpan(t) \/ HasSpan(u) THEN {}
            ELSE { COut("ok", [s EXCEPT !.tabs[op.k].m[op.i + 1][op.j + 1] = u.m[op.i2 + 1][op.j2 + 1]]) }
    [] op.a = "span" ->
         LET t == s.tabs[op.k]  p == <<op.i + 1, op.j + 1>>
         IN IF p[1] + op.h - 1 <= NR(t) /\ p[2] + op.w - 1 <= NC(t) /\ SpanFree(t, p, <<op.h, op.w>>)
            THEN { COut("ok", [s EXCEPT !.tabs[op.k].sp[p[1]][p[2]] = <<op.h, op.w>>]) } ELSE { COut("rej", s) }
    [] op.a = "unspan" -> { COut("ok", [s EXCEPT !.tabs[op.k].sp[op.i + 1][op.j + 1] = <<1, 1>>]) }
    [] op.a = "rename" -> { COut("ok", [s EXCEPT !.tabs[op.k].nm = op.nm]) }
    [] op.a = "style" -> { COut("ok", [s EXCEPT !.tabs[op.k].x[1] = op.t]) }
    [] op.a = "print" -> { COut("ok", [s EXCEPT !.tabs[op.k].x[2] = op.t]) }
    [] op.a = "protect" ->             \* a protected table has a key, nobody else has the same new one
         LET x == s.tabs[op.k].x
             keys == IF op.t = "true" THEN {NewKey} \cup (IF x[3] = "true" /\ x[4] # "0" THEN {x[4]} ELSE {}) ELSE {x[4], "0"}
         IN { COut("ok", SetX(s, op.k, <<x[1], x[2], op.t, y>>)) : y \in keys }
    [] op.a = "attach" -> { COut("ok", s) }     \* append the table to the sheets of the document
    [] OTHER -> {}
=============================================================================
