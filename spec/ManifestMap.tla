------------------------------ MODULE ManifestMap ------------------------------
(* The manifest as an insertion ordered map (C24).                           *)
(*  es : <<path, media type, version ("" if none), number of child elements>> *)
EXTENDS ListOps
ManifestMapNull == [es |-> <<>>]
AOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
AOk(s) == { AOut("ok", <<>>, s) }
Own == "META-INF/manifest.xml"
Paths(es) == { es[i][1] : i \in 1..Len(es) }
Of(es, p) == es[CHOOSE i \in 1..Len(es) : es[i][1] = p]
Add(es, p, m, v) ==
    IF p = Own THEN es
    ELSE IF p \in Paths(es)
    THEN [i \in 1..Len(es) |-> IF es[i][1] = p THEN <<p, m, IF v = "" THEN es[i][3] ELSE v, es[i][4]>> ELSE es[i]]
    ELSE Append(es, <<p, m, v, 0>>)
ManifestMapApply(s, op) ==
  CASE op.a = "new" -> AOk(ManifestMapNull)
    [] op.a = "load" -> AOk([es |-> op.es])
    [] op.a = "add" -> AOk([es |-> Add(s.es, op.p, op.m, op.v)])
    [] op.a = "remove" -> AOk([es |-> SelectSeq(s.es, LAMBDA e : e[1] # op.p)])
    [] op.a = "find" -> { AOut("ok", IF op.p \in Paths(s.es) THEN <<Of(s.es, op.p)>> ELSE <<>>, s) }
    [] op.a = "reload" -> AOk(s)
    [] OTHER -> {}
MapOk(s) == Cardinality(Paths(s.es)) = Len(s.es) /\ Own \notin Paths(s.es)
=============================================================================
