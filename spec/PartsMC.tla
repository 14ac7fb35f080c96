------------------------------ MODULE PartsMC ------------------------------
EXTENDS Parts, Explore
CONSTANTS Is, Cs, Ms, Starts
Live == hist # <<>>
Two == [i \in 1..Len(Names) |-> IF i = 1 THEN "x" ELSE IF i = 3 THEN "zip" ELSE "#none"]
TwoMan == [i \in 1..Len(Names) |-> IF i = 1 THEN "image/png" ELSE IF i = 2 THEN "" ELSE "#none"]
New == ~Live /\ "new" \in Starts /\ \E k \in {"odt", "ods"} : Do([a |-> "new", k |-> k])
Open == ~Live /\ "open" \in Starts /\ \E how \in {"bytes", "stream", "path"} : Do([a |-> "open", k |-> "odt", how |-> how, part |-> Two, man |-> TwoMan])
Register == Live /\ \E i \in Is, c \in Cs, m \in Ms, how \in {"bytes", "obj"} : Do([a |-> "register", i |-> i, c |-> c, m |-> m, how |-> how])
Edit == Live /\ \E i \in Is, c \in Cs : st.live[i] /\ Do([a |-> "edit", i |-> i, c |-> c])
List == Live /\ \E i \in Is, m \in Ms : Do([a |-> "list", i |-> i, m |-> m])
Unlist == Live /\ \E i \in Is : Do([a |-> "unlist", i |-> i])
Save == Live /\ \E how \in {"stream", "path", "again"} : Do([a |-> "save", how |-> how])
Reopen == Live /\ \E how \in {"bytes", "path"} : Do([a |-> "reopen", how |-> how])
Template == Live /\ Do([a |-> "template", how |-> "bytes"])
Next == Shallow /\ (New \/ Open \/ Register \/ Edit \/ List \/ Unlist \/ Save \/ Reopen \/ Template)
Spec == ExploreInit /\ [][Next]_evars
Inv == PartsOk(st)
=============================================================================
