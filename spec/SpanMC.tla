------------------------------- MODULE SpanMC -------------------------------
EXTENDS Span, Explore
CONSTANTS NRows, NCols, Structure   \* Structure: also explore row/column edits
Live == hist # <<>>
Tok(i, j) == "f" \o ToString(i) \o "." \o ToString(j)
StartM == [i \in 1..NRows |-> [j \in 1..NCols |-> Tok(i, j)]]
StartSp == [i \in 1..NRows |-> [j \in 1..NCols |-> One]]

New == ~Live /\ Do([a |-> "new", nr |-> NRows, nc |-> NCols])
Load == ~Live /\ Do([a |-> "load", m |-> StartM, sp |-> StartSp])
LoadSpanned == ~Live /\ \E h \in 1..NRows, w \in 1..NCols :
                 Do([a |-> "load", m |-> StartM, sp |-> [StartSp EXCEPT ![1][1] = <<h, w>>]])
SetSpan == Live /\ \E i \in -1..Rows(st), j \in -1..Cols(st), h \in 0..Rows(st) + 1, w \in 0..Cols(st) + 1 :
             /\ (i \in {-1, Rows(st)} \/ j \in {-1, Cols(st)} => h = 1 /\ w = 2)
             /\ (h = 0 => w <= 1) /\ (w = 0 => h <= 1)
             /\ Do([a |-> "set_span", i |-> i, j |-> j, h |-> h, w |-> w])
RemoveSpan == Live /\ \E i \in -1..Rows(st), j \in -1..Cols(st) : Do([a |-> "remove_span", i |-> i, j |-> j])
SetValue == Live /\ \E i \in 0..Rows(st) - 1, j \in 0..Cols(st) - 1 :
              st.m[i + 1][j + 1] # "x" /\ Do([a |-> "set_value", i |-> i, j |-> j, t |-> "x"])
InsertRows == Structure /\ Live /\ Rows(st) <= NRows /\ \E i \in 0..Rows(st) - 1 : Do([a |-> "insert_rows", i |-> i, n |-> 1])
InsertColumns == Structure /\ Live /\ Cols(st) <= NCols /\ \E i \in 0..Cols(st) - 1 : Do([a |-> "insert_columns", i |-> i, n |-> 1])
DeleteRows == Structure /\ Live /\ \E i \in 0..Rows(st) - 1, n \in 1..2 :
                n < Rows(st) /\ i + n <= Rows(st) /\ Do([a |-> "delete_rows", i |-> i, n |-> n])
DeleteColumns == Structure /\ Live /\ \E i \in 0..Cols(st) - 1, n \in 1..2 :
                n < Cols(st) /\ i + n <= Cols(st) /\ Do([a |-> "delete_columns", i |-> i, n |-> n])
AppendRows == Structure /\ Live /\ Rows(st) <= NRows /\ Do([a |-> "append_rows", n |-> 1])
AppendColumns == Structure /\ Live /\ Cols(st) <= NCols /\ Do([a |-> "append_columns", n |-> 1])
Reset == Live /\ Do([a |-> "reset", nr |-> 2, nc |-> 2])
Reload == Live /\ Do([a |-> "reload"])
Copy == Live /\ Do([a |-> "copy"])
Next == Shallow /\ (\/ New \/ Load \/ LoadSpanned \/ SetSpan \/ RemoveSpan \/ SetValue \/ InsertRows \/ InsertColumns
                    \/ DeleteRows \/ DeleteColumns \/ AppendRows \/ AppendColumns \/ Reset \/ Reload \/ Copy)
Spec == ExploreInit /\ [][Next]_evars
InvPartition == SpansPartition(st)
=============================================================================
