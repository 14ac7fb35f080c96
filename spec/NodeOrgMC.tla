----------------------------- MODULE NodeOrgMC -----------------------------
EXTENDS NodeOrg, Explore
CONSTANTS Alphabet, MaxLen, MaxKids
Live == hist # <<>>
PreTags == <<"a", "b", "c">>
EpiTags == <<"x", "y", "z">>
Queried == {"a", "b", "c", "x", "y", "z", "g", ""}
Setup == ~Live /\ \E n \in 0..MaxLen : \E ts \in [1..n -> Alphabet] :
           Do([a |-> "setup", kids |-> [i \in 1..n |-> <<ts[i], i>>], pre |-> PreTags, epi |-> EpiTags])
Reorder == Live /\ Do([a |-> "reorder"])
LenQ == Live /\ \E w \in {"p", "e"} : Do([a |-> "len", w |-> w])
InfoQ == Live /\ \E w \in {"p", "e"}, t \in Queried \ {""} : Do([a |-> "info", w |-> w, t |-> t])
PosQ == Live /\ \E w \in {"p", "e"}, d \in {"before", "after"}, t \in Queried :
           (t = "" => (w = "p") = (d = "after")) /\ Do([a |-> "position", w |-> w, side |-> d, t |-> t])
Put == Live /\ Len(st.kids) < MaxKids /\ \E w \in {"p", "e"}, d \in {"before", "after"}, t \in LRange(PreTags) \cup LRange(EpiTags) :
           In(Tags(st, w), t) /\ Do([a |-> "put", w |-> w, side |-> d, t |-> t, x |-> <<t, 50 + Len(st.kids)>>])
ValidQ == Live /\ Do([a |-> "valid"])
BlockQ == ~Live /\ \E w \in {"p", "e"}, ts \in { <<>>, <<"a">>, <<"a", "b">>, <<"a", "b", "a">>, <<"a", "a">> } : Do([a |-> "block", w |-> w, tags |-> ts])
Next == Shallow /\ (Setup \/ ((Live /\ st.pre # <<>>) /\ (Reorder \/ LenQ \/ InfoQ \/ PosQ \/ Put \/ ValidQ)) \/ BlockQ)
Spec == ExploreInit /\ [][Next]_evars
Inv == st.pre # <<>> =>
         /\ ReorderedOk(st)
         /\ \A w \in {"p", "e"}, d \in {"before", "after"} : \A t \in LRange(Tags(st, w)) : PutOk(st, w, d, t)
=============================================================================
