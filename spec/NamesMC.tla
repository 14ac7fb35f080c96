------------------------------ MODULE NamesMC ------------------------------
EXTENDS Names, Explore
Live == hist # <<>>
Setup == ~Live /\ Do([a |-> "setup"])
Register == Live /\ \E p \in {"pa", "pb"}, u \in {"urn:1", "urn:2"} : Do([a |-> "register", p |-> p, u |-> u])
Cn == Live /\ \E f \in {"prefix", "clark", "bare", "two", "empty"}, p \in {"pa", "pb", "pc"}, l \in {"x", "y-z"} : (f \in {"bare", "empty"} => p = "pa" /\ l = "x") /\ Do([a |-> "cn", form |-> f, p |-> p, l |-> l])
OdfN == Live /\ Len(hist) = 1 /\ \E p \in DOMAIN Odf : Do([a |-> "odf", p |-> p, l |-> "name"])
RegClass == Live /\ \E t \in {"t1", "t2"}, k \in 1..3 : (t = "t2" => k = 1) /\ Do([a |-> "regclass", t |-> t, k |-> k])
Wrap == Live /\ \E t \in {"t1", "t2"} : Do([a |-> "wrap", t |-> t])
Kind == Live /\ Len(hist) = 1 /\ \E x \in Kinds, own \in BOOLEAN : Do([a |-> "kind", t |-> x[1], own |-> own])
Foreign == Live /\ Len(hist) = 1 /\ \E x \in Kinds : Do([a |-> "foreign", t |-> x[1]])
Next == Shallow /\ (Setup \/ Register \/ Cn \/ OdfN \/ RegClass \/ Wrap \/ Kind \/ Foreign)
Spec == ExploreInit /\ [][Next]_evars
\* no two library classes for one tag
Inv == Cardinality({ x[1] : x \in Kinds }) = Cardinality(Kinds)
=============================================================================
