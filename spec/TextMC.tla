------------------------------- MODULE TextMC -------------------------------
EXTENDS Text, Explore
CONSTANTS Kinds, Chars, CreateLen, AppendLen, EncLen, Ops
Live == hist # <<>>
Strings(n) == UNION { [1..k -> Chars] : k \in 0..n }
Elems == IF Item(st.kind) THEN {"p", "h", "cm"} ELSE {"Span", "A", "tab", "br", "s", "spb", "bm", "cm", "pi", "fld"}
Ns == {0, 1, 3}

Create == ~Live /\ \E k \in Kinds, t \in Strings(CreateLen) : Do([a |-> "create", kind |-> k, t |-> t])
AppendT == Live /\ \E d \in 0..Closing(st.flat), t \in Strings(AppendLen) :
             ~(Item(st.kind) /\ d = 0) /\ Do([a |-> "append_text", d |-> d, t |-> t])
AppendE == Live /\ "append" \in Ops /\ \E d \in 0..Closing(st.flat), e \in Elems \cup {"Span"}, n \in Ns :
             /\ (IF Item(st.kind) /\ d = 0 THEN e \in {"p", "h", "cm"} ELSE e \notin {"p", "h"})
             /\ (e # "s" => n = 1)
             /\ Do([a |-> "append", d |-> d, e |-> e, n |-> n, t |-> IF e \in {"Span", "A", "p", "h"} THEN <<Blank, "x", Blank>> ELSE <<>>])
InsertE == Live /\ "insert" \in Ops /\ \E i \in 0..2, e \in Elems :
             i < Len(Kids(st.flat)) /\ Do([a |-> "insert", i |-> i, e |-> e, n |-> 2, t |-> IF e \in {"Span", "A", "p", "h"} THEN <<"i", Nl>> ELSE <<>>])
ChildT == Live /\ "insert" \in Ops /\ \E i \in 0..2 :
             i < Len(Kids(st.flat)) /\ IsOpen(st.flat[Kids(st.flat)[i + 1]]) /\ Do([a |-> "child_text", i |-> i, t |-> <<"c", Blank, Blank, Tab>>])
EncodeT == ~Live /\ "encode" \in Ops /\ \E t \in Strings(EncLen) : Do([a |-> "encode", t |-> t])
SpacesT == ~Live /\ "encode" \in Ops /\ \E n, m \in {0, 1, 2, 5} : Do([a |-> "spaces", n |-> n, m |-> m])
Reload == Live /\ Do([a |-> "reload"])
Next == Shallow /\ (Create \/ AppendT \/ AppendE \/ InsertE \/ ChildT \/ EncodeT \/ SpacesT \/ (Live /\ st.kind # "" /\ Reload))
Spec == ExploreInit /\ [][Next]_evars
Inv == TextInv(st) /\ (Live /\ LastOp.o.a = "encode" => EncInv(LastOp.o.t))
=============================================================================
