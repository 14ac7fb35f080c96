---------------------------- MODULE EventBusMC ----------------------------
EXTENDS EventBus, Explore
CONSTANTS Setups
Live == hist # <<>>
L(ev, root, react) == [ev |-> ev, root |-> root, alive |-> TRUE, react |-> react]
No == <<"none", 0>>
Both == <<"e1", "e2">>
AllSetups == [ plain |-> << L(Both, 0, No), L(Both, 1, No), L(<<"e1">>, 2, No) >>,
               roots |-> << L(Both, 1, No), L(Both, 1, No), L(Both, 3, No) >>,
               selfun |-> << L(Both, 1, <<"unsub", 1>>), L(Both, 1, No), L(Both, 0, <<"unsub", 3>>) >>,
               other |-> << L(Both, 1, <<"unsub", 2>>), L(Both, 1, No), L(Both, 2, No) >>,
               adds |-> << L(Both, 1, <<"sub", 2>>), L(Both, 1, No), L(Both, 2, No) >>,
               booms |-> << L(Both, 1, <<"boom", 1>>), L(Both, 1, No), L(<<"e1">>, 0, <<"boom", 2>>) >>,
               kills |-> << L(Both, 1, <<"kill", 3>>), L(Both, 1, No), L(Both, 2, No) >> ]
Alive == { x \in 1..Len(st.ls) : st.ls[x].alive }
Setup == ~Live /\ \E n \in Setups, g \in BOOLEAN : Do([a |-> "setup", ls |-> AllSetups[n], glob |-> g])
Subscribe == Live /\ \E x \in Alive, e \in {"e1", "e2"} : Do([a |-> "subscribe", x |-> x, e |-> e])
Unsubscribe == Live /\ \E x \in Alive, e \in {"e1", "e2"} : Do([a |-> "unsubscribe", x |-> x, e |-> e])
DestroyL == Live /\ \E x \in Alive : (\A y \in Alive : st.ls[y].react[2] # x) /\ Do([a |-> "destroy", x |-> x])
Move == Live /\ \E x \in Alive : st.ls[x].root # 0 /\ Do([a |-> "move", x |-> x, root |-> 3 - (IF st.ls[x].root = 3 THEN 1 ELSE st.ls[x].root)])
Broadcast == Live /\ \E e \in {"e1", "e2", "e3"}, r \in 0..3 : Do([a |-> "broadcast", e |-> e, root |-> r])
Next == Shallow /\ (Setup \/ Subscribe \/ Unsubscribe \/ DestroyL \/ Move \/ Broadcast)
Spec == ExploreInit /\ [][Next]_evars
Inv == SubsInv(st)
=============================================================================
