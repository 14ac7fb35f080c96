------------------------------ MODULE SaveFSMC ------------------------------
EXTENDS SaveFS, Explore
CONSTANTS Kinds, Srcs
Live == hist # <<>>
\* the situations: what is under the name and its backup name before, and where the document comes from
Situations == { [kind |-> k, src |-> src, backup |-> b] : k \in Kinds, src \in Srcs, b \in BOOLEAN }
Dir(c, x, y) == [f |-> x, b |-> y, t |-> <<>>, o |-> IF c.src \in {"other", "away"} THEN <<"v0", "junk">> ELSE <<"junk">>]
Init0 == ~Live /\ \E c \in Situations, y \in {"none", "bak"} :
           /\ c.kind # "bytes" \/ c.src # "new"
           /\ \E x \in (IF c.src = "self" THEN {"v0"} ELSE {"none", "w"}) : Do([a |-> "init", cfg |-> c, dir |-> Dir(c, x, y)])
Edit == Live /\ LastOp.o.a # "edit" /\ st.n < 2 /\ Do([a |-> "edit"])
Faults == { [k |-> "none", n |-> 0] } \cup { [k |-> "space", n |-> p] : p \in {0, 30, 97} } \cup { [k |-> "open", n |-> 1] }
          \cup { [k |-> k, n |-> i] : k \in {"read", "rename", "remove"}, i \in {1, 2} } \cup { [k |-> "poison", n |-> 1], [k |-> "listen", n |-> 1] }
SaveD == Live /\ Len(SelectSeq(hist, LAMBDA h : h.o.a = "save")) < 2 /\ \E f \in Faults : Do([a |-> "save", fault |-> f])
Next == Shallow /\ (Init0 \/ Edit \/ SaveD)
Spec == ExploreInit /\ [][Next]_evars
Inv == Live => Safe(st.begin, st.mem, st.dir) \/ LastOp.o.a # "save"
\* after whatever went wrong a good save brings everything
Recovers == [][ (Len(hist') > 1 /\ LastOp'.o.a = "save" /\ LastOp'.o.fault.k = "none") => LastOp'.r = "ok" /\ st'.dir.f = st.mem /\ st'.dir.o = st.dir.o ]_evars
=============================================================================
