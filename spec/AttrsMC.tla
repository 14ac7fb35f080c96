------------------------------- MODULE AttrsMC -------------------------------
EXTENDS Attrs, Explore
CONSTANTS Kinds, Mode
Live == hist # <<>>
V(t, s, i, b, cs) == [t |-> t, s |-> s, i |-> i, b |-> b, cs |-> cs]
Values(ty) ==
  CASE ty = "string" -> { V("str", "x", 0, TRUE, <<"x">>), V("str", "", 0, FALSE, <<>>), V("int", "3", 3, TRUE, <<>>), V("none", "None", 0, FALSE, <<>>) }
    [] ty \in {"bool", "prot"} -> { V("bool", "True", 1, TRUE, <<>>), V("bool", "False", 0, FALSE, <<>>), V("str", "", 0, FALSE, <<>>), V("int", "2", 2, TRUE, <<>>) }
    [] ty \in {"level", "start"} -> { V("int", "3", 3, TRUE, <<>>), V("int", "1", 1, TRUE, <<>>), V("int", "0", 0, FALSE, <<>>), V("int", "-4", -4, TRUE, <<>>),
                                      V("float", "2.9", 2, TRUE, <<>>), V("numstr", "12", 12, TRUE, <<"1", "2">>), V("str", "x", 0, TRUE, <<"x">>), V("none", "None", 0, FALSE, <<>>) }
    [] ty = "number" -> { V("str", "1.", 0, TRUE, <<"1", ".">>), V("int", "7", 7, TRUE, <<>>) }
    [] ty \in {"frame", "pname"} -> { V("str", "_blank", 0, TRUE, <<>>), V("str", "_top", 0, TRUE, <<>>), V("str", "", 0, FALSE, <<>>), V("none", "None", 0, FALSE, <<>>) }
    [] ty = "tname" -> { V("str", "N", 0, TRUE, <<"N">>), V("str", " a 'b'", 0, TRUE, <<" ", "a", " ", "'", "b", "'">>), V("str", "\"", 0, TRUE, <<"\"">>), V("str", "", 0, FALSE, <<>>) }
    [] ty = "vis" -> { V("str", x, 0, TRUE, <<>>) : x \in {"visible", "collapse", "filter", "hidden", "Visible"} } \cup { V("str", "", 0, FALSE, <<>>), V("none", "None", 0, FALSE, <<>>) }
    [] OTHER -> {}
Some(k) == IF k = "List" THEN << <<"h", "H">>, <<"i", "a">>, <<"i", "b">> >> ELSE IF k = "NumberedParagraph" THEN << <<"p", "P">> >> ELSE <<>>
NewO == ~Live /\ \E k \in Kinds : Do([a |-> "new", k |-> k, kids |-> <<>>, text |-> "", set |-> <<>>])
LoadO == ~Live /\ \E k \in Kinds, f \in {FALSE, TRUE} : k # "Table" /\ Do([a |-> "load", k |-> k, kids |-> Some(k), text |-> "", set |-> <<>>])
EzList == ~Live /\ Mode = "list" /\ \E h \in {"", "H"}, n \in 0..2, x \in {"t", ""} : Do([a |-> "ezlist", h |-> h, items |-> [i \in 1..n |-> IF i = 1 THEN x ELSE "t"], set |-> <<>>])
Settable == { n \in DOMAIN TypesOf(st.k) : TypesOf(st.k)[n] # "auto" }
SetAt == Live /\ \E n \in Settable : \E v \in Values(TypesOf(st.k)[n]) : Do([a |-> "set", n |-> n, v |-> v])
DelAt == Live /\ \E n \in Settable : TypesOf(st.k)[n] \in {"string", "bool", "level"} /\ Do([a |-> "del", n |-> n])
Reload == Live /\ Do([a |-> "reload"])
IsL == Live /\ st.k = "List"
ListHead == IsL /\ (\/ \E h \in {"H", "K"} : Do([a |-> "header", h |-> h]) \/ Do([a |-> "header_same"]) \/ Do([a |-> "header_bad"])
                    \/ Do([a |-> "get_header"]) \/ Do([a |-> "steal", h |-> "S"]))
ListItems == IsL /\ (\/ Do([a |-> "items"]) \/ Do([a |-> "append", t |-> "z"])
                     \/ \E p \in Cardinality(Headers(st.kids))..Len(st.kids) : Do([a |-> "insert", p |-> p, t |-> "y"])
                     \/ \E i \in -4..4 : Do([a |-> "delete", i |-> i]))
ContentOf == Live /\ st.k = "NumberedParagraph" /\ Do([a |-> "content"])
Next == Shallow /\ (NewO \/ LoadO \/ EzList \/ (Mode = "attr" /\ (SetAt \/ DelAt)) \/ Reload \/ (Mode = "list" /\ (ListHead \/ ListItems)) \/ ContentOf)
Spec == ExploreInit /\ [][Next]_evars
Inv == Live => AttrsOk(st)
AView == <<st, hist = <<>> >>
=============================================================================
