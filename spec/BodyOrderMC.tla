---------------------------- MODULE BodyOrderMC ----------------------------
EXTENDS BodyOrder, Explore
CONSTANTS Kinds, Preludes, Epilogues, MaxNew
Live == hist # <<>>
\* where the library had to add declarations, only reopening is explored: each behaviour stays replayable
Steady == Live /\ hist[1].o.kind = "odt" /\ Missing(hist[1].o.kids) = <<>>
A(t) == <<"a", t, 0>>
Z(t, n) == <<"z", t, n>>
C(n) == <<"c", "p", n>>
PreSets == [ none |-> <<>>, forms |-> <<A("forms")>>, seq |-> <<A("sequence-decls")>>, vars |-> <<A("variable-decls")>>,
             decls |-> <<A("variable-decls"), A("user-field-decls")>>,
             mixed |-> <<A("forms"), A("tracked-changes"), A("sequence-decls"), A("content-validations")>>,
             full |-> <<A("forms"), A("variable-decls"), A("sequence-decls"), A("user-field-decls"), A("calculation-settings")>> ]
EpiSets == [ none |-> <<>>, one |-> <<Z("named-expressions", 1)>>,
             two |-> <<Z("named-expressions", 1), Z("database-ranges", 1)>>,
             twice |-> <<Z("named-expressions", 1), Z("named-expressions", 2), Z("dde-links", 1)>>,
             wrong |-> <<Z("database-ranges", 1), Z("named-expressions", 1)>> ]
Idx == (-(Len(st.kids) + 1))..(Len(st.kids) + 1)
Cs == LRange(Content(st)) \cup LRange(st.free)
Open == ~Live /\ \E k \in Kinds, p \in Preludes, e \in Epilogues, c \in { <<>>, <<C(1)>>, <<C(1), C(2)>> } :
          Do([a |-> "open", kind |-> k, kids |-> PreSets[p] \o c \o EpiSets[e]])
Create == Steady /\ Cardinality(Cs) < MaxNew /\ st.free = <<>> /\ Do([a |-> "create", x |-> C(Cardinality(Cs) + 10)])
AppendB == Steady /\ \E x \in Cs : Do([a |-> "append", x |-> x])
InsertB == Steady /\ \E x \in Cs, i \in Idx : Do([a |-> "insert", x |-> x, i |-> i])
Before == Steady /\ \E x \in Cs, t \in LRange(st.kids) \cup LRange(st.free) : Do([a |-> "insert_before", x |-> x, t |-> t])
SetB == Steady /\ \E x \in Cs, i \in Idx : Do([a |-> "set", x |-> x, i |-> i])
ReplaceB == Steady /\ \E x \in Cs, t \in Cs : Do([a |-> "replace", x |-> x, t |-> t])
RemoveB == Steady /\ \E x \in Cs : Do([a |-> "remove", x |-> x])
DeleteB == Steady /\ \E i \in Idx : Do([a |-> "delete", i |-> i])
Reopen == Live /\ Do([a |-> "reopen"])
Next == Shallow /\ (Open \/ Create \/ AppendB \/ InsertB \/ Before \/ SetB \/ ReplaceB \/ RemoveB \/ DeleteB \/ Reopen)
Spec == ExploreInit /\ [][Next]_evars
Inv == NoDup(st)
\* everything but the element named by the operation keeps its order
Kept == [][ (Len(hist') > 1 /\ hist'[Len(hist')].o.a \in {"append", "insert", "insert_before", "remove"} ) =>
              LWithout(st'.kids, hist'[Len(hist')].o.x) = LWithout(st.kids, hist'[Len(hist')].o.x) ]_evars
=============================================================================
