------------------------------- MODULE Table -------------------------------
(* A table as the list of its rows.                                        *)
(*   m    : matrix of cells (a cell is a token naming its value and style) *)
(*   ri   : row infos, one token per row                                   *)
(*   ci   : column infos, one token per column                             *)
(*   cx   : column infos of a loaded table behind its last column          *)
(*   held : position of the one cell the user keeps a reference to,        *)
(*          <<>> when none or when it is no longer part of the table       *)
(*   ex   : names of the other children of the table element               *)
(*   v    : names of the views that disagree with m, ri, ci (always <<>>)  *)
EXTENDS Integers, Sequences, FiniteSets

TableNull == [m |-> <<>>, ri |-> <<>>, ci |-> <<>>, cx |-> <<>>, held |-> <<>>, ex |-> <<>>, v |-> <<>>]

NR(s) == Len(s.m)
NC(s) == IF s.m = <<>> THEN 0 ELSE Len(s.m[1])

TOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
TOk(s)  == { TOut("ok", <<>>, s) }
TRej(s) == { TOut("rej", <<>>, s) }

\* Python index rules: position i of n (0-based), negative from the end
InRange(i, n) == i >= -n /\ i < n
Pos(i, n) == IF i < 0 THEN i + n ELSE i

Fill(n, x) == [i \in 1..n |-> x]
\* list edits, 0-based position p
InsN(seq, p, n, x) == SubSeq(seq, 1, p) \o Fill(n, x) \o SubSeq(seq, p + 1, Len(seq))
DelN(seq, p, n) == SubSeq(seq, 1, p) \o SubSeq(seq, p + n + 1, Len(seq))
EmptyRow(n) == Fill(n, "")

\* where the held cell is after an edit of lines (rows or columns) at position p
ShiftIns(x, p, n) == IF x >= p THEN x + n ELSE x
Gone(x, p, n) == x >= p /\ x < p + n
ShiftDel(x, p, n) == IF x >= p + n THEN x - n ELSE x

HeldInsR(s, p, n) == IF s.held = <<>> THEN <<>> ELSE <<ShiftIns(s.held[1], p, n), s.held[2]>>
HeldInsC(s, p, n) == IF s.held = <<>> THEN <<>> ELSE <<s.held[1], ShiftIns(s.held[2], p, n)>>
HeldDelR(s, p, n) == IF s.held = <<>> \/ Gone(s.held[1], p, n) THEN <<>>
                     ELSE <<ShiftDel(s.held[1], p, n), s.held[2]>>
HeldDelC(s, p, n) == IF s.held = <<>> \/ Gone(s.held[2], p, n) THEN <<>>
                     ELSE <<s.held[1], ShiftDel(s.held[2], p, n)>>

Blank(nr, nc) == [m |-> Fill(nr, EmptyRow(nc)), ri |-> Fill(nr, ""), ci |-> Fill(nc, ""),
                  cx |-> <<>>, held |-> <<>>, ex |-> <<>>, v |-> <<>>]

MaxLen(rows) == CHOOSE n \in {Len(rows[i]) : i \in 1..Len(rows)} :
                    \A i \in 1..Len(rows) : Len(rows[i]) <= n
\* a loaded table: short rows are padded with empty cells; missing column infos are like the last one or empty,
\* column infos behind the last column stay there
Loaded(rows, ri, ci, ex) ==
    LET n == MaxLen(rows)
        Tab(c) == [m |-> [i \in 1..Len(rows) |-> rows[i] \o EmptyRow(n - Len(rows[i]))], ri |-> ri,
                   ci |-> SubSeq(c, 1, n), cx |-> SubSeq(c, n + 1, Len(c)), held |-> <<>>, ex |-> ex, v |-> <<>>]
    IN IF Len(ci) >= n THEN { Tab(ci) }
       ELSE { Tab(ci \o Fill(n - Len(ci), x)) : x \in {""} \cup (IF ci = <<>> THEN {} ELSE {ci[Len(ci)]}) }
\* tokens of cells which are part of a span: "^" head, "~" covered; writing a value keeps the span
Mark(x) == IF Len(x) > 0 /\ SubSeq(x, 1, 1) \in {"^", "~"} THEN SubSeq(x, 1, 1) ELSE ""
Put(s, i, j, tok) == [s EXCEPT !.m[i + 1][j + 1] = Mark(@) \o tok]

InsertRows(s, p, n) == [s EXCEPT !.m = InsN(s.m, p, n, EmptyRow(NC(s))), !.ri = InsN(s.ri, p, n, ""),
                                 !.held = HeldInsR(s, p, n)]
DeleteRows(s, p, n) == [s EXCEPT !.m = DelN(s.m, p, n), !.ri = DelN(s.ri, p, n), !.held = HeldDelR(s, p, n)]
InsertCols(s, p, n) == [s EXCEPT !.m = [i \in 1..NR(s) |-> InsN(s.m[i], p, n, "")], !.ci = InsN(s.ci, p, n, ""),
                                 !.held = HeldInsC(s, p, n)]
DeleteCols(s, p, n) == [s EXCEPT !.m = [i \in 1..NR(s) |-> DelN(s.m[i], p, n)], !.ci = DelN(s.ci, p, n),
                                 !.held = HeldDelC(s, p, n)]

\* appended columns get empty infos, or those which are behind the last column already
AppendCols(s, n) ==
    LET new == InsertCols(s, NC(s), n)
        all == s.cx \o Fill(n, "")
    IN { new, [new EXCEPT !.ci = s.ci \o SubSeq(all, 1, n), !.cx = SubSeq(all, n + 1, Len(all))] }

ValidCell(s, i, j) == InRange(i, NR(s)) /\ InRange(j, NC(s))

\* what is neither cell nor info may be kept or not
Emptied(s, nr, nc) == TOk(Blank(nr, nc)) \cup TOk([Blank(nr, nc) EXCEPT !.ex = s.ex])

\* Apply: the specification of every table operation
TableApply(s, op) ==
  CASE op.a = "new" ->
         IF op.nr >= 1 /\ op.nc >= 1 THEN TOk(Blank(op.nr, op.nc)) ELSE TRej(s)
    [] op.a = "load" -> { TOut("ok", <<>>, t) : t \in Loaded(op.rows, op.ri, op.ci, op.ex) }
    [] op.a = "append_rows" ->
         IF op.n >= 1 THEN TOk(InsertRows(s, NR(s), op.n)) ELSE TRej(s)
    [] op.a = "append_columns" ->
         IF op.n >= 1 THEN { TOut("ok", <<>>, t) : t \in AppendCols(s, op.n) } ELSE TRej(s)
    [] op.a = "insert_rows" ->
         IF op.n >= 1 /\ InRange(op.i, NR(s)) THEN TOk(InsertRows(s, Pos(op.i, NR(s)), op.n)) ELSE TRej(s)
    [] op.a = "insert_columns" ->
         IF op.n >= 1 /\ InRange(op.i, NC(s)) THEN TOk(InsertCols(s, Pos(op.i, NC(s)), op.n)) ELSE TRej(s)
    [] op.a = "delete_rows" ->
         IF op.n >= 1 /\ op.n < NR(s) /\ InRange(op.i, NR(s)) /\ Pos(op.i, NR(s)) + op.n <= NR(s)
         THEN TOk(DeleteRows(s, Pos(op.i, NR(s)), op.n)) ELSE TRej(s)
    [] op.a = "delete_columns" ->
         IF op.n >= 1 /\ op.n < NC(s) /\ InRange(op.i, NC(s)) /\ Pos(op.i, NC(s)) + op.n <= NC(s)
         THEN TOk(DeleteCols(s, Pos(op.i, NC(s)), op.n)) ELSE TRej(s)
    [] op.a = "set_value" ->      \* table[i, j].set_value(tok)
         IF ValidCell(s, op.i, op.j)
         THEN TOk(Put(s, Pos(op.i, NR(s)), Pos(op.j, NC(s)), op.t)) ELSE TRej(s)
    [] op.a = "set_cell" ->       \* table[i, j] = Cell(tok): the cell is a new one
         IF ValidCell(s, op.i, op.j)
         THEN LET i == Pos(op.i, NR(s))  j == Pos(op.j, NC(s))
              IN TOk([Put(s, i, j, op.t) EXCEPT !.held = IF @ = <<i, j>> THEN <<>> ELSE @])
         ELSE TRej(s)
    [] op.a = "copy_cell" ->      \* table[i, j] = table[i2, j2]: the source keeps its place
         IF ValidCell(s, op.i, op.j) /\ ValidCell(s, op.i2, op.j2)
         THEN LET i == Pos(op.i, NR(s))  j == Pos(op.j, NC(s))
                  i2 == Pos(op.i2, NR(s))  j2 == Pos(op.j2, NC(s))
              IN IF <<i, j>> = <<i2, j2>> THEN TOk(s)
                 ELSE TOk([Put(s, i, j, s.m[i2 + 1][j2 + 1]) EXCEPT !.held = IF @ = <<i, j>> THEN <<>> ELSE @])
         ELSE TRej(s)
    [] op.a = "set_noncell" -> TRej(s)   \* table[i, j] = something that is not a cell
    [] op.a = "bad_ref" -> TRej(s)       \* access by an invalid reference string or of invalid type
    [] op.a = "hold" ->
         IF ValidCell(s, op.i, op.j)
         THEN TOk([s EXCEPT !.held = <<Pos(op.i, NR(s)), Pos(op.j, NC(s))>>]) ELSE TRej(s)
    [] op.a = "held_set" ->       \* write through the reference kept by the user
         IF s.held = <<>> THEN TOk(s) ELSE TOk(Put(s, s.held[1], s.held[2], op.t))
    [] op.a = "get" ->
         IF ValidCell(s, op.i, op.j)
         THEN { TOut("ok", <<s.m[Pos(op.i, NR(s)) + 1][Pos(op.j, NC(s)) + 1]>>, s) } ELSE TRej(s)
    [] op.a = "get_row" ->
         IF InRange(op.i, NR(s)) THEN { TOut("ok", s.m[Pos(op.i, NR(s)) + 1], s) } ELSE TRej(s)
    [] op.a = "get_column" ->
         IF InRange(op.i, NC(s))
         THEN { TOut("ok", [k \in 1..NR(s) |-> s.m[k][Pos(op.i, NC(s)) + 1]], s) } ELSE TRej(s)
    [] op.a = "row_style" ->
         IF InRange(op.i, NR(s)) THEN TOk([s EXCEPT !.ri[Pos(op.i, NR(s)) + 1] = op.t]) ELSE TRej(s)
    [] op.a = "column_style" ->
         IF InRange(op.i, NC(s)) THEN TOk([s EXCEPT !.ci[Pos(op.i, NC(s)) + 1] = op.t])
         ELSE TRej(s) \cup (IF op.i >= NC(s) /\ op.i < NC(s) + Len(s.cx) THEN TOk([s EXCEPT !.cx[op.i - NC(s) + 1] = op.t]) ELSE {})
    [] op.a = "reset" ->
         IF op.nr >= 1 /\ op.nc >= 1 THEN Emptied(s, op.nr, op.nc) ELSE TRej(s)
    [] op.a = "clear" -> Emptied(s, NR(s), NC(s))
    [] op.a = "reload" -> TOk([s EXCEPT !.held = <<>>])   \* serialise and load again
    [] OTHER -> {}

(* ---- invariants of the specification itself ---- *)
Rectangular(s) == /\ \A i \in 1..NR(s) : Len(s.m[i]) = NC(s)
                  /\ Len(s.ri) = NR(s)
                  /\ Len(s.ci) = NC(s)
HeldInside(s) == s.held # <<>> => s.held[1] \in 0..(NR(s) - 1) /\ s.held[2] \in 0..(NC(s) - 1)
=============================================================================
