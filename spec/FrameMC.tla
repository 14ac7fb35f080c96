---------------------------- MODULE FrameMC ----------------------------
EXTENDS Frame, Explore
CONSTANTS Kinds, Tags
Live == hist # <<>>
K(t) == <<t, IF t \in {"x", "!"} THEN <<"m">> ELSE <<>> >>
F(t) == <<t, <<"l">> >>
InOrder(S) == SelectSeq(Order, LAMBDA t : t \in S)
\* every set of present frame elements, with an unknown element in the middle, a comment at both ends,
\* attributes at the root and at all frame elements, or a whole document embedded in the body
Layouts(p, k) ==
    { LET l == InOrder(S) IN
      CASE m = "plain" -> [i \in 1..Len(l) |-> IF i = full THEN F(l[i]) ELSE K(l[i])]
        [] m = "x" -> SubSeq([i \in 1..Len(l) |-> F(l[i])], 1, Len(l) \div 2) \o <<K("x")>> \o SubSeq([i \in 1..Len(l) |-> F(l[i])], Len(l) \div 2 + 1, Len(l))
        [] m = "@" -> << <<"@", <<"a">> >> >> \o [i \in 1..Len(l) |-> <<l[i], <<"@">> \o (IF i = full THEN <<"l">> ELSE <<>>)>>]
        [] m = "E" -> [i \in 1..Len(l) |-> IF l[i] = "body" THEN <<"body", <<"E1">> >> ELSE K(l[i])]
        [] m = "!" -> <<K("!")>> \o [i \in 1..Len(l) |-> K(l[i])] \o << <<"!", <<"e">> >> >>
      : S \in { T \in SUBSET Allowed(p) : p \in {"content", "flat"} => "body" \in T }, m \in {"plain", "x", "!", "@", "E"}, full \in {1, 2} }
Some(p) == << F(IF p = "content" THEN "body" ELSE IF p = "styles" THEN "styles" ELSE "meta") >>
Open == ~Live /\ \E k \in Kinds, a \in {"open", "template"}, p \in {"content", "styles", "meta", "flat"} : p \in Parts(k) /\ (a = "template" => k = "pkg") /\ \E l \in Layouts(p, k) :
          Do([a |-> a, k |-> k, kind |-> "odt", parts |-> [q \in {p} \cup (IF k = "pkg" THEN {"content"} ELSE {}) |-> IF q = p THEN l ELSE Some(q)]])
New == ~Live /\ \E k \in Kinds, kind \in {"odt", "ods", "odp"} : Do([a |-> "new", k |-> k, kind |-> kind])
Put == Live /\ \E p \in DOMAIN st.parts, t \in Tags : t \in DOMAIN st.parts[p] /\ t # "settings" /\ Len(st.parts[p][t]) < 2
             /\ Do([a |-> "put", p |-> p, t |-> t, n |-> IF st.parts[p][t] = <<>> THEN "n1" ELSE "n2"])
Reopen == Live /\ Do([a |-> "reopen"])
Next == Shallow /\ (Open \/ New \/ Put \/ Reopen)
Spec == ExploreInit /\ [][Next]_evars
Inv == Live => /\ st.wf = <<>> /\ DOMAIN st.parts = Parts(st.k)
               /\ \A p \in DOMAIN st.parts : DOMAIN st.parts[p] = Allowed(p)
\* only the frame element named changes, and nothing that was there gets lost
Local == [][ Len(hist) > 0 => \A p \in DOMAIN st.parts : \A t \in DOMAIN st.parts[p] :
              \/ st'.parts[p][t] = st.parts[p][t]
              \/ LastOp'.o.a = "put" /\ LastOp'.o.p = p /\ LastOp'.o.t = t /\ SubSeq(st'.parts[p][t], 1, Len(st.parts[p][t])) = st.parts[p][t] ]_evars
ASSUME \A p \in {"content", "styles", "meta", "flat"} : \A l \in Layouts(p, "pkg") : Sorted(l)
=============================================================================
