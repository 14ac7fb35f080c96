------------------------------- MODULE Expand -------------------------------
(* Expansion of repetition attributes when a table is loaded.              *)
(*  cfg  : <<strategy, maxrows, maxcols>> in force                         *)
(*  m    : matrix of <<token, covered>> of the last loaded table           *)
(*  ri, ci : row and column infos;  left : repetition attributes > 1 left  *)
(* A stored table is rows: sequence of [n |-> repetitions, t |-> row info, *)
(* c |-> sequence of [n, t |-> token, v |-> "c" if covered]],              *)
(* cols: sequence of [n, t].                                               *)
EXTENDS Integers, Sequences, FiniteSets

Default == <<"all_less_maxcount", 32, 32>>
ExpandNull == [cfg |-> Default, m |-> <<>>, ri |-> <<>>, ci |-> <<>>, left |-> 0]

Max2(a, b) == IF a > b THEN a ELSE b
\* how often element k of n elements appears, declared with d repetitions
Times(strategy, limit, d, k, n) ==
    CASE strategy = "all" -> d
      [] strategy = "all_but_last" -> IF k = n THEN 1 ELSE d
      [] strategy = "all_less_maxcount" -> IF d < limit THEN d ELSE 1
Rep(x, n) == [i \in 1..n |-> x]
RECURSIVE Flat(_, _, _, _, _)
\* concatenation of items 1..k, item i repeated as the strategy says, F applied by the caller via .x
Flat(items, vals, strategy, limit, k) ==
    IF k = 0 THEN <<>>
    ELSE Flat(items, vals, strategy, limit, k - 1)
         \o Rep(vals[k], Times(strategy, limit, items[k].n, k, Len(items)))
CellsOf(row, cfg) == Flat(row.c, [k \in 1..Len(row.c) |-> <<row.c[k].t, row.c[k].v>>], cfg[1], cfg[3], Len(row.c))
RowsOf(rows, cfg) == Flat(rows, [k \in 1..Len(rows) |-> CellsOf(rows[k], cfg)], cfg[1], cfg[2], Len(rows))
InfosOf(rows, cfg) == Flat(rows, [k \in 1..Len(rows) |-> rows[k].t], cfg[1], cfg[2], Len(rows))
ColsOf(cols, cfg) == Flat(cols, [k \in 1..Len(cols) |-> cols[k].t], cfg[1], cfg[3], Len(cols))
RECURSIVE Widest(_, _)
Widest(m, k) == IF k = 0 THEN 0 ELSE Max2(Len(m[k]), Widest(m, k - 1))
Pad(row, n) == row \o Rep(<<"", "">>, n - Len(row))
\* column infos missing behind the declared ones exist, without or with the style of the last one
PadCols(c, n) == IF Len(c) >= n THEN {c}
                 ELSE { c \o Rep(x, n - Len(c)) : x \in {""} \cup (IF c = <<>> THEN {} ELSE {c[Len(c)]}) }

Result(s, rows, cols) ==
    LET m0 == RowsOf(rows, s.cfg)
        n == Widest(m0, Len(m0))
    IN { [s EXCEPT !.m = [i \in 1..Len(m0) |-> Pad(m0[i], n)], !.ri = InfosOf(rows, s.cfg), !.ci = c, !.left = 0]
         : c \in PadCols(ColsOf(cols, s.cfg), n) }

EOut(r, s) == [r |-> r, q |-> <<>>, s |-> s]
ExpandApply(s, op) ==
  CASE op.a = "strategy" -> { EOut("ok", [s EXCEPT !.cfg = <<op.st, op.mr, op.mc>>]) }
    [] op.a = "strategy_only" -> { EOut("ok", [s EXCEPT !.cfg = <<op.st, 32, 32>>]) }
    [] op.a = "reset" -> { EOut("ok", [s EXCEPT !.cfg = Default]) }
    [] op.a = "load" -> { EOut("ok", x) : x \in Result(s, op.rows, op.cols) }
    [] op.a = "write" ->              \* copies are independent: writing one cell changes only that cell
         IF op.i < Len(s.m) /\ op.j < Len(s.m[1])
         THEN { EOut("ok", [s EXCEPT !.m[op.i + 1][op.j + 1] = <<op.t, @[2]>>]) } ELSE {}
    [] op.a = "row_style" -> IF op.i < Len(s.ri) THEN { EOut("ok", [s EXCEPT !.ri[op.i + 1] = op.t]) } ELSE {}
    [] op.a = "column_style" -> IF op.i < Len(s.ci) THEN { EOut("ok", [s EXCEPT !.ci[op.i + 1] = op.t]) } ELSE {}
    [] OTHER -> {}

Rectangle(s) == \A i \in 1..Len(s.m) : Len(s.m[i]) = Len(s.m[1])
Infos(s) == Len(s.ri) = Len(s.m) /\ (s.m # <<>> => Len(s.ci) >= Len(s.m[1]))
=============================================================================
