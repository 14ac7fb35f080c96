------------------------------ MODULE TableMC ------------------------------
EXTENDS Table, Explore

CONSTANTS MaxR, MaxC,    \* largest start table
          MaxN,          \* largest count
          MaxSize        \* no table grows beyond this

Tok(i, j) == ToString(i) \o "." \o ToString(j)
StartRows(nr, nc) == [i \in 1..nr |-> [j \in 1..nc |-> Tok(i, j)]]
\* the first cell spans the second one as well
SpanRows(nr, nc) == [StartRows(nr, nc) EXCEPT ![1][1] = "^" \o @, ![1][2] = "~"]
Names(p, n) == [i \in 1..n |-> p \o ToString(i)]

\* indices around both borders of a range of n
Idx(n) == (-(n + 1))..(n + 1)
N == 0..MaxN
Live == hist # <<>>
Small == NR(st) <= MaxSize /\ NC(st) <= MaxSize

New  == ~Live /\ \E nr \in 0..MaxR, nc \in 0..MaxC : Do([a |-> "new", nr |-> nr, nc |-> nc])
Load == ~Live /\ \E nr \in 1..MaxR, nc \in 1..MaxC, lay \in {"plain", "header", "group"} :
          Do([a |-> "load", rows |-> StartRows(nr, nc), ri |-> Names("r", nr), ci |-> Names("c", nc), lay |-> lay, ex |-> <<>>])
\* a table with other children and fewer or more column infos than columns
LoadMore == ~Live /\ \E k \in -MaxC..1 :
          Do([a |-> "load", rows |-> StartRows(1, MaxC), ri |-> <<"r1">>, ci |-> Names("c", MaxC + k), lay |-> "plain",
              ex |-> <<"table:title", "office:forms", "table:shapes", "table:named-expressions">>])
LoadSpan == ~Live /\ \E nr \in 1..MaxR, nc \in 2..MaxC, k \in -MaxC..1, lay \in {"plain", "header", "repeat"} :
          nc + k >= (IF lay = "header" THEN 1 ELSE 0) /\ Do([a |-> "load", rows |-> SpanRows(nr, nc), ri |-> Names("r", nr), ci |-> Names("c", nc + k), lay |-> lay, ex |-> <<>>])
Free(i, j) == ValidCell(st, i, j) => Mark(st.m[Pos(i, NR(st)) + 1][Pos(j, NC(st)) + 1]) = ""
\* no edit of columns between the head of a span and the cell it covers
Apart(j) == InRange(j, NC(st)) => \A i \in 1..NR(st) : Mark(st.m[i][Pos(j, NC(st)) + 1]) # "~"
After(j, n) == InRange(j, NC(st)) /\ Pos(j, NC(st)) + n < NC(st) => \A i \in 1..NR(st) : Mark(st.m[i][Pos(j, NC(st)) + n + 1]) # "~"
AppendRows    == Live /\ \E n \in N : Do([a |-> "append_rows", n |-> n])
AppendColumns == Live /\ \E n \in N : Do([a |-> "append_columns", n |-> n])
InsertRowsA    == Live /\ \E i \in Idx(NR(st)), n \in N : Do([a |-> "insert_rows", i |-> i, n |-> n])
InsertColumnsA == Live /\ \E i \in Idx(NC(st)), n \in N : Apart(i) /\ Do([a |-> "insert_columns", i |-> i, n |-> n])
DeleteRowsA    == Live /\ \E i \in Idx(NR(st)), n \in N \cup {NR(st)} : Do([a |-> "delete_rows", i |-> i, n |-> n])
DeleteColumnsA == Live /\ \E i \in Idx(NC(st)), n \in N \cup {NC(st)} : Apart(i) /\ After(i, n) /\ Do([a |-> "delete_columns", i |-> i, n |-> n])
SetValue == Live /\ \E i \in Idx(NR(st)), j \in Idx(NC(st)) : Do([a |-> "set_value", i |-> i, j |-> j, t |-> "x"])
SetCell  == Live /\ \E i \in Idx(NR(st)), j \in Idx(NC(st)) : Free(i, j) /\ Do([a |-> "set_cell", i |-> i, j |-> j, t |-> "y"])
CopyCell == Live /\ \E i \in 0..NR(st) - 1, j \in 0..NC(st) - 1, i2 \in {0, -1}, j2 \in {0, -1} :
              Free(i, j) /\ Free(i2, j2) /\ Do([a |-> "copy_cell", i |-> i, j |-> j, i2 |-> i2, j2 |-> j2])
NonCell  == Live /\ Do([a |-> "set_noncell", i |-> 0, j |-> 0])
BadRef   == Live /\ \E w \in {"A0", "", "1", "A", "A-1", "$A$1"} : Do([a |-> "bad_ref", w |-> w])
Hold     == Live /\ st.held = <<>> /\ \E i \in 0..NR(st) - 1, j \in 0..NC(st) - 1 : Do([a |-> "hold", i |-> i, j |-> j])
HeldSet  == Live /\ st.held # <<>> /\ Do([a |-> "held_set", t |-> "h"])
Get      == Live /\ \E i \in Idx(NR(st)), j \in Idx(NC(st)) : Do([a |-> "get", i |-> i, j |-> j])
GetRow    == Live /\ \E i \in Idx(NR(st)) : Do([a |-> "get_row", i |-> i])
GetColumn == Live /\ \E i \in Idx(NC(st)) : Do([a |-> "get_column", i |-> i])
RowStyle    == Live /\ \E i \in Idx(NR(st)) : Do([a |-> "row_style", i |-> i, t |-> "p"])
ColumnStyle == Live /\ \E i \in Idx(NC(st)) : Do([a |-> "column_style", i |-> i, t |-> "q"])
Reset == Live /\ \E nr \in 0..2, nc \in 0..2 : Do([a |-> "reset", nr |-> nr, nc |-> nc])
Clear == Live /\ Do([a |-> "clear"])
Reload == Live /\ Do([a |-> "reload"])

Next == Shallow /\ Small /\
        (\/ New \/ Load \/ LoadSpan \/ LoadMore \/ AppendRows \/ AppendColumns \/ InsertRowsA \/ InsertColumnsA
         \/ DeleteRowsA \/ DeleteColumnsA \/ SetValue \/ SetCell \/ CopyCell \/ NonCell \/ BadRef
         \/ Hold \/ HeldSet \/ Get \/ GetRow \/ GetColumn \/ RowStyle \/ ColumnStyle
         \/ Reset \/ Clear \/ Reload)

Spec == ExploreInit /\ [][Next]_evars

InvRect == st # TableNull => Rectangular(st)
InvHeld == HeldInside(st)
=============================================================================
