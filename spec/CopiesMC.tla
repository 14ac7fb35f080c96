------------------------------ MODULE CopiesMC ------------------------------
EXTENDS Copies, Explore
CONSTANTS MaxTabs
Live == st.tabs # <<>>
K == 1..Len(st.tabs)
Start == ~Live /\ \/ \E nm \in {"A", ""} : Do([a |-> "load", nm |-> nm, rows |-> << <<"a", "b">>, <<"", "d">> >>, ri |-> <<"r", "">>, ci |-> <<"", "k">>, lay |-> "plain",
                          ex |-> <<"table:title", "table:named-expressions">>, x |-> <<"o", "false", "true", "K">>])
                  \/ Do([a |-> "new", nm |-> "N", nr |-> 1, nc |-> 2])
Copy == Live /\ Len(st.tabs) < MaxTabs /\ \E k \in K, nm \in {"#none", "Z"} : Do([a |-> "copy", k |-> k, nm |-> nm])
TableOps == { [a |-> "append_rows", n |-> 1], [a |-> "insert_columns", i |-> 0, n |-> 1], [a |-> "delete_columns", i |-> -1, n |-> 1],
              [a |-> "insert_rows", i |-> 0, n |-> 1], [a |-> "delete_rows", i |-> 0, n |-> 1], [a |-> "append_columns", n |-> 1],
              [a |-> "set_value", i |-> 0, j |-> 0, t |-> "x"], [a |-> "set_cell", i |-> 0, j |-> -1, t |-> "y"],
              [a |-> "row_style", i |-> 0, t |-> "p"], [a |-> "column_style", i |-> -1, t |-> "q"], [a |-> "clear"], [a |-> "reset", nr |-> 1, nc |-> 1] }
On == Live /\ \E k \in K, o \in TableOps :
        /\ NR(st.tabs[k]) < 4 /\ NC(st.tabs[k]) < 4
        /\ Do([a |-> "on", k |-> k, op |-> o])
Assign == Live /\ \E k \in K, k2 \in K : k # k2 /\ Do([a |-> "assign", k |-> k, i |-> 0, j |-> 0, k2 |-> k2, i2 |-> NR(st.tabs[k2]) - 1, j2 |-> NC(st.tabs[k2]) - 1])
Span == Live /\ \E k \in K, h \in 1..2, w \in 1..2 : Do([a |-> "span", k |-> k, i |-> 0, j |-> 0, h |-> h, w |-> w])
Unspan == Live /\ \E k \in K : Do([a |-> "unspan", k |-> k, i |-> 0, j |-> 0])
Rename == Live /\ \E k \in K : Do([a |-> "rename", k |-> k, nm |-> "Q"])
Style == Live /\ \E k \in K : Do([a |-> "style", k |-> k, t |-> "s"])
PrintIt == Live /\ \E k \in K, t \in {"true", "false"} : Do([a |-> "print", k |-> k, t |-> t])
ProtectIt == Live /\ \E k \in K, t \in {"true", "false"} : Do([a |-> "protect", k |-> k, t |-> t])
Attach == Live /\ \E k \in K : Do([a |-> "attach", k |-> k])
Next == Shallow /\ (Start \/ Copy \/ On \/ Assign \/ Span \/ Unspan \/ Rename \/ Style \/ PrintIt \/ ProtectIt \/ Attach)
Spec == ExploreInit /\ [][Next]_evars
\* an operation on one table leaves all others alone
Independent == [][ \A k \in 1..Len(st.tabs) :
                     (Len(hist') > 0 /\ (hist'[Len(hist')].o.a \in {"new", "load", "copy"} \/ hist'[Len(hist')].o.k # k)) => [st'.tabs[k] EXCEPT !.x[4] = ""] = [st.tabs[k] EXCEPT !.x[4] = ""]
                     /\ (st'.tabs[k].x[4] = "0" <=> st.tabs[k].x[4] = "0") ]_evars
\* two tables with the same key get different ones only when one of them is protected anew
=============================================================================
