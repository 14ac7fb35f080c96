-------------------------------- MODULE Span --------------------------------
(* Cell spans of a table: areas of cells, each shown by its top-left cell.   *)
(*   m   : matrix of cell tokens                                            *)
(*   sp  : matrix of spans, <<1, 1>> for a cell without a span              *)
(*   cov : matrix of "c" (covered) or "" - determined by sp                 *)
EXTENDS Integers, Sequences, FiniteSets

SpanNull == [m |-> <<>>, sp |-> <<>>, cov |-> <<>>]
SOut(r, s) == [r |-> r, q |-> <<>>, s |-> s]
SOk(s) == { SOut("ok", s) }
SRej(s) == { SOut("rej", s) }
Rows(s) == Len(s.m)
Cols(s) == IF s.m = <<>> THEN 0 ELSE Len(s.m[1])
One == <<1, 1>>

\* all positions and sizes are 1-based internally
Poss(s) == (1..Rows(s)) \X (1..Cols(s))
SpanAt(s, p) == s.sp[p[1]][p[2]]
InArea(x, p, size) == /\ x[1] >= p[1] /\ x[1] < p[1] + size[1]
                      /\ x[2] >= p[2] /\ x[2] < p[2] + size[2]
Anchors(s) == { p \in Poss(s) : SpanAt(s, p) # One }
CoveredBy(s, x) == { p \in Anchors(s) : p # x /\ InArea(x, p, SpanAt(s, p)) }
\* a cell is covered exactly when it lies inside a spanned area and is not its top-left cell
WithCov(s) == [s EXCEPT !.cov = [i \in 1..Rows(s) |-> [j \in 1..Cols(s) |->
                   IF CoveredBy(s, <<i, j>>) = {} THEN "" ELSE "c"]]]
Covered(s, x) == CoveredBy(s, x) # {}

FillRow(n, x) == [i \in 1..n |-> x]
SBlank(nr, nc) == WithCov([m |-> FillRow(nr, FillRow(nc, "")), sp |-> FillRow(nr, FillRow(nc, One)), cov |-> <<>>])

Fits(s, p, size) == /\ p[1] \in 1..Rows(s) /\ p[2] \in 1..Cols(s)
                    /\ size[1] >= 1 /\ size[2] >= 1
                    /\ p[1] + size[1] - 1 <= Rows(s) /\ p[2] + size[2] - 1 <= Cols(s)
Free(s, p, size) == \A x \in Poss(s) : InArea(x, p, size) => SpanAt(s, x) = One /\ ~Covered(s, x)

Ins(seq, p, n, x) == SubSeq(seq, 1, p) \o FillRow(n, x) \o SubSeq(seq, p + 1, Len(seq))
Del(seq, p, n) == SubSeq(seq, 1, p) \o SubSeq(seq, p + n + 1, Len(seq))

\* row/column edits that do not cut a spanned area (d = 1: rows, d = 2: columns; p 0-based position)
CutsIns(s, d, p) == \E a \in Anchors(s) : p + 1 > a[d] /\ p + 1 < a[d] + SpanAt(s, a)[d]
CutsDel(s, d, p, n) == \E a \in Anchors(s) :
        LET lo == a[d]  hi == a[d] + SpanAt(s, a)[d] - 1
        IN ~(hi < p + 1 \/ lo > p + n \/ (lo >= p + 1 /\ hi <= p + n))
InsR(s, p, n) == WithCov([s EXCEPT !.m = Ins(s.m, p, n, FillRow(Cols(s), "")), !.sp = Ins(s.sp, p, n, FillRow(Cols(s), One))])
DelR(s, p, n) == WithCov([s EXCEPT !.m = Del(s.m, p, n), !.sp = Del(s.sp, p, n)])
InsC(s, p, n) == WithCov([s EXCEPT !.m = [i \in 1..Rows(s) |-> Ins(s.m[i], p, n, "")],
                                   !.sp = [i \in 1..Rows(s) |-> Ins(s.sp[i], p, n, One)]])
DelC(s, p, n) == WithCov([s EXCEPT !.m = [i \in 1..Rows(s) |-> Del(s.m[i], p, n)],
                                   !.sp = [i \in 1..Rows(s) |-> Del(s.sp[i], p, n)]])

SIn(i, n) == i >= -n /\ i < n
SPos(i, n) == IF i < 0 THEN i + n ELSE i

SpanApply(s, op) ==
  CASE op.a = "new" -> SOk(SBlank(op.nr, op.nc))
    [] op.a = "load" -> SOk(WithCov([m |-> op.m, sp |-> op.sp, cov |-> <<>>]))
    [] op.a = "set_span" ->           \* negative positions are outside the documented domain of spans
         LET p == <<op.i + 1, op.j + 1>>  size == <<op.h, op.w>>
         IN IF op.i >= 0 /\ op.j >= 0 /\ Fits(s, p, size) /\ Free(s, p, size)
            THEN SOk(WithCov([s EXCEPT !.sp[p[1]][p[2]] = size])) ELSE SRej(s)
    [] op.a = "remove_span" ->
         IF op.i >= Rows(s) \/ op.j >= Cols(s) \/ op.i < -Rows(s) \/ op.j < -Cols(s) THEN SRej(s)
         ELSE LET p == <<SPos(op.i, Rows(s)) + 1, SPos(op.j, Cols(s)) + 1>>
                  done == SOk(WithCov([s EXCEPT !.sp[p[1]][p[2]] = One]))
              IN IF op.i < 0 \/ op.j < 0 THEN done \cup SRej(s) ELSE done
    [] op.a = "set_value" -> SOk([s EXCEPT !.m[op.i + 1][op.j + 1] = op.t])
    [] op.a = "insert_rows" -> IF CutsIns(s, 1, op.i) THEN {} ELSE SOk(InsR(s, op.i, op.n))
    [] op.a = "insert_columns" -> IF CutsIns(s, 2, op.i) THEN {} ELSE SOk(InsC(s, op.i, op.n))
    [] op.a = "append_rows" -> SOk(InsR(s, Rows(s), op.n))
    [] op.a = "append_columns" -> SOk(InsC(s, Cols(s), op.n))
    [] op.a = "delete_rows" -> IF CutsDel(s, 1, op.i, op.n) THEN {} ELSE SOk(DelR(s, op.i, op.n))
    [] op.a = "delete_columns" -> IF CutsDel(s, 2, op.i, op.n) THEN {} ELSE SOk(DelC(s, op.i, op.n))
    [] op.a = "reset" -> SOk(SBlank(op.nr, op.nc))
    [] op.a = "reload" -> SOk(s)
    [] op.a = "copy" -> SOk(s)         \* continue with table.copy()
    [] OTHER -> {}

(* ---- invariants ---- *)
AreaOf(s, p) == { x \in Poss(s) : InArea(x, p, SpanAt(s, p)) }
SpansPartition(s) ==
    /\ \A p, q \in Anchors(s) : p # q => AreaOf(s, p) \cap AreaOf(s, q) = {}
    /\ \A p \in Anchors(s) : Fits(s, p, SpanAt(s, p))
    /\ \A x \in Poss(s) : Cardinality(CoveredBy(s, x)) <= 1
    /\ \A x \in Poss(s) : (s.cov[x[1]][x[2]] = "c") <=> (\E p \in Anchors(s) : p # x /\ x \in AreaOf(s, p))
=============================================================================
