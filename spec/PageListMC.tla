----------------------------- MODULE PageListMC -----------------------------
EXTENDS PageList, Explore
CONSTANTS Kinds, MaxPages
Live == hist # <<>>
Ids == 1..Len(st.names)
Idx == (-(Len(st.pages) + 1))..(Len(st.pages) + 1)
NameSet == {"A", "B"}
Keys == { [by |-> "i", i |-> i] : i \in Idx } \cup { [by |-> "n", n |-> n] : n \in {"A", "B", " A", "B ", "none"} } \cup { [by |-> "bad"] }
Layouts == { <<>>, <<"pre">>, <<"epi">>, <<"pre", "epi">>, <<"pre", "epi", "epi2">> }

Open == ~Live /\ \E k \in Kinds, o \in Layouts, n \in { <<>>, <<"A">>, <<"A", "B">>, <<"A", "A">>, <<" A", "A", "B ">> } :
          Do([a |-> "open", kind |-> k, others |-> o, names |-> n])
Create == Live /\ Len(st.names) < MaxPages /\ \E n \in NameSet \cup {""} : Do([a |-> "create", n |-> n])
AppendP == Live /\ \E x \in Ids : Do([a |-> "append", x |-> x])
InsertP == Live /\ \E x \in Ids, i \in Idx : Do([a |-> "insert", x |-> x, i |-> i])
SetP == Live /\ \E x \in Ids, k \in Keys : Do([a |-> "set", x |-> x, key |-> k])
DeleteP == Live /\ \E k \in Keys : Do([a |-> "delete", key |-> k])
GetP == Live /\ \E k \in Keys : Do([a |-> "get", key |-> k])
IndexP == Live /\ \E x \in Ids : Do([a |-> "index", x |-> x])
Rename == Live /\ \E x \in Ids, n \in {"B", "C", ""} : Do([a |-> "rename", x |-> x, n |-> n])
Invalid == Live /\ \E a \in {"append_invalid", "insert_invalid", "set_invalid"} : Do([a |-> a])
Edit == Live /\ \E x \in Ids : Has(st.pages, x) /\ Do([a |-> "edit", x |-> x])
Reload == Live /\ Do([a |-> "reload"])
Next == Shallow /\ (Open \/ Create \/ AppendP \/ InsertP \/ SetP \/ DeleteP \/ GetP \/ IndexP \/ Rename \/ Invalid \/ Edit \/ Reload)
Spec == ExploreInit /\ [][Next]_evars
Inv == NoTwice(st)
=============================================================================
