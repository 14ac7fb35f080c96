----------------------------- MODULE NodeListMC -----------------------------
EXTENDS NodeList, Explore
CONSTANTS Setups, Ops
Live == hist # <<>>
Ids == 1..Len(st.tag)
Idx(p) == (-(Len(st.kids[p]) + 1))..(Len(st.kids[p]) + 1)
AllSetups == [ three |-> [tag |-> <<"section", "p", "p">>, kids |-> << <<>>, <<>>, <<>> >>],
               flat |-> [tag |-> <<"section", "p", "h", "p">>, kids |-> << <<2, 3, 4>>, <<>>, <<>>, <<>> >>],
               deep |-> [tag |-> <<"section", "p", "span", "foreign">>, kids |-> << <<2>>, <<3, 4>>, <<>>, <<>> >>] ]
Setup == ~Live /\ \E n \in Setups : Do([a |-> "setup", tag |-> AllSetups[n].tag, kids |-> AllSetups[n].kids])
AppendN == "append" \in Ops /\ \E p, x \in Ids : Do([a |-> "append", p |-> p, x |-> x])
InsertN == "insert" \in Ops /\ \E p, x \in Ids : \E i \in Idx(p) : Do([a |-> "insert", p |-> p, x |-> x, i |-> i])
SetN == "set" \in Ops /\ \E p, x \in Ids : \E i \in Idx(p) : Do([a |-> "set", p |-> p, x |-> x, i |-> i])
DeleteN == "delete" \in Ops /\ \E p \in Ids : \E i \in Idx(p) : Do([a |-> "delete", p |-> p, i |-> i])
GetN == "get" \in Ops /\ \E p \in Ids : \E i \in Idx(p) : Do([a |-> "get", p |-> p, i |-> i])
Member == \E p, x \in Ids, a \in {"index", "remove"} \cap Ops : Do([a |-> a, p |-> p, x |-> x])
Target == \E p, t, x \in Ids, a \in {"insert_before", "replace"} \cap Ops : Do([a |-> a, p |-> p, t |-> t, x |-> x])
One == \E p \in Ids, a \in {"clear", "root"} \cap Ops : Do([a |-> a, p |-> p])
Find == "find" \in Ops /\ \E p \in Ids, a \in {"find", "findall"}, tag \in {"p", "h"} : Do([a |-> a, p |-> p, tag |-> tag])
Mark == "mark" \in Ops /\ \E p \in Ids : \E i \in Idx(p) : Do([a |-> "mark", p |-> p, i |-> i, t |-> "m"])
Next == Shallow /\ (Setup \/ (Live /\ (AppendN \/ InsertN \/ SetN \/ DeleteN \/ GetN \/ Member \/ Target \/ One \/ Find \/ Mark)))
Spec == ExploreInit /\ [][Next]_evars
Inv == Forest(st)
=============================================================================
