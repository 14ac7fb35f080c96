---------------------------- MODULE ManifestMapMC ----------------------------
EXTENDS ManifestMap, Explore
CONSTANTS Ps, Ms, Vs
Live == hist # <<>>
New == ~Live /\ Do([a |-> "new"])
Load == ~Live /\ \E es \in { << <<"/", "m0", "1.2", 0>>, <<"content.xml", "text/xml", "", 0>> >>,
                             << <<"Pictures/", "", "", 0>>, <<"Pictures/a", "img", "", 1>>, <<"/", "m0", "", 0>> >> } : Do([a |-> "load", es |-> es])
AddE == Live /\ \E p \in Ps \cup {Own}, m \in Ms, v \in Vs : Do([a |-> "add", p |-> p, m |-> m, v |-> v])
RemoveE == Live /\ \E p \in Ps \cup {Own} : Do([a |-> "remove", p |-> p])
FindE == Live /\ \E p \in Ps \cup {Own} : Do([a |-> "find", p |-> p])
Reload == Live /\ Do([a |-> "reload"])
Next == Shallow /\ (New \/ Load \/ AddE \/ RemoveE \/ FindE \/ Reload)
Spec == ExploreInit /\ [][Next]_evars
Inv == MapOk(st)
=============================================================================
