---------------------------- MODULE VariablesMC ----------------------------
EXTENDS Variables, Explore
CONSTANTS Kinds, Docs
Live == hist # <<>>
S0 == <<"string", "s:old">>
E(k, n) == <<k, n, S0[1], S0[2]>>
AllDocs == [ one |-> [decl |-> << E("var", "x") >>, inst |-> << E("var", "x") >>],
             both |-> [decl |-> << E("var", "x"), E("fld", "x"), E("fld", "y") >>,
                       inst |-> << E("fld", "x"), E("var", "x"), E("fld", "x"), E("var", "z") >>],
             two |-> [decl |-> << E("var", "x"), E("var", "y"), E("fld", "x") >>,
                      inst |-> << E("var", "y"), E("var", "x"), E("var", "x"), E("var", "y") >>] ]
Values == { <<"string", "s:n">>, <<"string", "s:">>, <<"float", "f:0.0">>, <<"float", "f:2.5">>, <<"boolean", "b:True">>, <<"boolean", "b:False">> }
Open == ~Live /\ \E d \in Docs, k \in Kinds : Do([a |-> "open", kind |-> k, decl |-> AllDocs[d].decl, inst |-> AllDocs[d].inst])
Assign == Live /\ \E k \in {"var", "fld"}, n \in {"x", "y", "none"}, x \in Values : Do([a |-> "assign", k |-> k, n |-> n, t |-> x[1], x |-> x[2]])
Query == Live /\ \E a \in {"get", "has"}, k \in {"var", "fld"}, n \in {"x", "y", "none"} : Do([a |-> a, k |-> k, n |-> n])
Occur == Live /\ Len(st.inst) < 5 /\ \E k \in {"var", "fld"}, i \in 0..2 :
           Declared(st, k, "x") /\ Do([a |-> "occur", k |-> k, n |-> "x", t |-> D(st, k, "x")[3], x |-> D(st, k, "x")[4], i |-> i])
Reload == Live /\ Do([a |-> "reload"])
Next == Shallow /\ (Open \/ Assign \/ Query \/ Occur \/ Reload)
Spec == ExploreInit /\ [][Next]_evars
Assigned == [][ (Len(hist') > 0 /\ hist'[Len(hist')].o.a = "assign" /\ hist'[Len(hist')].r = "ok") =>
                  LET o == hist'[Len(hist')].o
                  IN Agree(st', o.k, o.n) /\ \A i \in 1..Len(st.inst) : ~Is(st.inst[i], o.k, o.n) => st'.inst[i] = st.inst[i] ]_evars
=============================================================================
