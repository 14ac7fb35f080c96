---------------------------- MODULE MetaStoreMC ----------------------------
EXTENDS MetaStore, Explore
CONSTANTS Starts, Ops
Live == hist # <<>>
Loaded == [a |-> "load", root |-> "meta", tags |-> [title |-> "T", date |-> "d"], kw |-> <<"k1", "k2">>,
           user |-> << <<"u1", "1", "float">>, <<"u2", "x", "string">> >>, stat |-> << <<"page", 3>> >>, other |-> <<"template">>]
New == ~Live /\ "new" \in Starts /\ Do([a |-> "new"])
Load == ~Live /\ \E r \in Starts \ {"new"} : Do([Loaded EXCEPT !.root = r])
Tags2 == {"title", "language", "nokey"}
SetT == "tags" \in Ops /\ \E k \in Tags2, x \in {"A", "B"} : Do([a |-> "set", k |-> k, x |-> x])
GetT == "tags" \in Ops /\ \E k \in Tags2 \cup {"date", "creator"} : Do([a |-> "get", k |-> k])
BadT == "tags" \in Ops /\ \E a \in {"set_bad", "kw_bad", "u_bad"} : Do([a |-> a])
Kw == "kw" \in Ops /\ \E a \in {"kw_add", "kw_remove", "kw_has"}, x \in {"k1", "k2", "k3"} : Do([a |-> a, x |-> x])
USet == "user" \in Ops /\ \E n \in {"u1", "u2", "u3"}, x \in {"1", "y"}, t \in {"", "float"} : Do([a |-> "u_set", n |-> n, x |-> x, t |-> t])
UGet == "user" \in Ops /\ \E a \in {"u_get", "u_type", "u_has", "u_del"}, n \in {"u1", "u3"} : Do([a |-> a, n |-> n])
UUpd == "user" \in Ops /\ \E es \in { <<>>, << <<"u3", "z">>, <<"u1", "q">> >> } : Do([a |-> "u_update", es |-> es])
SSet == "stat" \in Ops /\ \E n \in {"page", "word", "nostat"}, x \in {0, 7} : Do([a |-> "s_set", n |-> n, x |-> x])
SGet == "stat" \in Ops /\ \E n \in {"page", "word", "nostat"} : Do([a |-> "s_get", n |-> n])
SUpd == "stat" \in Ops /\ Do([a |-> "s_update", es |-> << <<"word", 2>>, <<"page", 5>> >>])
Clears == \E a \in {"kw_clear", "u_clear", "s_clear", "clear", "reload", "touch"} : Do([a |-> a])
Numeric == st.tags["editing-cycles"] \in {Absent, "1", "2", "3"}
IncC == Numeric /\ Do([a |-> "inc", num |-> CASE st.tags["editing-cycles"] = "1" -> 1 [] st.tags["editing-cycles"] = "2" -> 2
                                             [] st.tags["editing-cycles"] = "3" -> 3 [] OTHER -> -1])
Next == Shallow /\ (New \/ Load \/ (Live /\ (SetT \/ GetT \/ BadT \/ Kw \/ USet \/ UGet \/ UUpd \/ SSet \/ SGet \/ SUpd \/ Clears \/ IncC)))
Spec == ExploreInit /\ [][Next]_evars
Inv == MapInv(st)
\* no operation on one store affects another
OpSet == LastOp.o.a
Only(store, ops) == [][ (Len(hist') > 1 /\ hist'[Len(hist')].o.a \in ops) => \A f \in DOMAIN st \ {store} : st'[f] = st[f] ]_evars
Independent == Only("tags", {"set", "get", "touch", "inc"}) /\ Only("kw", {"kw_add", "kw_remove", "kw_clear"})
               /\ Only("user", {"u_set", "u_del", "u_update", "u_clear"}) /\ Only("stat", {"s_set", "s_update", "s_clear"})
=============================================================================
