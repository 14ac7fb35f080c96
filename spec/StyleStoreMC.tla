---------------------------- MODULE StyleStoreMC ----------------------------
EXTENDS StyleStore, Explore
CONSTANTS Kinds, Names, Ids, Cs
All == {"fonts", "common", "auto", "master"}
Content == {"cfonts", "cauto"}
Of(k) == All \cup (IF k = "flat" THEN {} ELSE Content)
Live == hist # <<>>
Kind == hist[1].o.k
Open == ~Live /\ \E k \in Kinds, f \in {"empty", "some"} :
          Do([a |-> "open", k |-> k, f |-> f,
              cs |-> [c \in Of(k) |-> IF f = "empty" THEN <<>>
                        ELSE IF c = "common" THEN << <<"style:default-style", "", "d0">>, <<"style:style", "A", "l1">>, <<"text:list-style", "B", "l2">> >>
                        ELSE IF c = "auto" THEN << <<"style:page-layout", "A", "p1">>, <<"style:style", "C", "l3">> >>
                        ELSE IF c = "cauto" THEN << <<"style:style", "A", "l4">> >>
                        ELSE IF c = "master" THEN << <<"style:master-page", "B", "m1">> >> ELSE << <<"style:font-face", "A", "f1">> >>]])
Used == Cs \cap Of(Kind)
GetS == Live /\ \E c \in Of(Kind), n \in Names \cup {"none", "d0", "family-d0", "family-l1"} : Do([a |-> "get", c |-> c, n |-> n])
AttrS == Live /\ \E c \in Used, n \in Names : (\A x \in Named(st.cs[c], n) : st.cs[c][x][1] = "style:style") /\ Do([a |-> "attr", c |-> c, n |-> n])
Fresh(i) == \A c \in DOMAIN st.cs : \A k \in 1..Len(st.cs[c]) : st.cs[c][k][3] # i
SetS == Live /\ \E c \in Used, n \in Names, i \in Ids : Fresh(i) /\ Do([a |-> "set", c |-> c, n |-> n, t |-> "style:style", i |-> i])
\* duplicates make lookups ambiguous: left to the recorded histories
Inject == Live /\ \E n \in Names, i \in Ids, t \in {"style:style", "style:page-layout"} :
            Fresh(i) /\ Named(st.cs["common"], n) = {} /\ Do([a |-> "inject", n |-> n, t |-> t, i |-> i])
Rename == Live /\ \E c \in Used, n \in Names, m \in Names \cup {"R"} : Named(st.cs[c], m) = {} /\ Do([a |-> "rename", c |-> c, n |-> n, m |-> m])
InjectBad == Live /\ Do([a |-> "injectbad"])
Reopen == Live /\ Do([a |-> "reopen"])
Next == Shallow /\ (Open \/ GetS \/ AttrS \/ SetS \/ Inject \/ Rename \/ InjectBad \/ Reopen)
Spec == ExploreInit /\ [][Next]_evars
\* names stay unique where they were, other containers stay as they are
Inv == Live => \A c \in DOMAIN st.cs : \A n \in Names : Cardinality(Named(st.cs[c], n)) <= 1
Local == [][ Len(hist) > 0 => Cardinality({ c \in DOMAIN st.cs : st'.cs[c] # st.cs[c] }) <= 1 ]_evars
=============================================================================
