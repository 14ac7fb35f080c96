------------------------------ MODULE Frame ------------------------------
(* The frame of a document (C31): the children of the root elements of      *)
(* content.xml, styles.xml and meta.xml, or of a flat document.             *)
(*  k     : "pkg" or "flat"                                                 *)
(*  parts : part -> frame tag -> what it holds; <<>> for an empty frame     *)
(*          element and for none; "@" stands for attributes of the frame    *)
(*          element, names in the body beginning with E embed a document    *)
(*  other : part -> unknown elements and comments beside the frame elements *)
(*  wf    : frame elements that are missing, twice or out of order: none    *)
EXTENDS ListOps, TLC
FrameNull == [k |-> "", parts |-> [p \in {"none"} |-> [t \in {"body"} |-> <<>>]], other |-> [p \in {"none"} |-> <<>>], wf |-> <<>>]
\* the order OpenDocument requires
Order == <<"meta", "settings", "scripts", "font-face-decls", "styles", "automatic-styles", "master-styles", "body">>
Rank == [ t \in { Order[i] : i \in 1..Len(Order) } |-> CHOOSE i \in 1..Len(Order) : Order[i] = t ]
Parts(k) == IF k = "flat" THEN {"flat"} ELSE {"content", "styles", "meta"}
Allowed(p) == CASE p = "content" -> {"scripts", "font-face-decls", "automatic-styles", "body"}
                [] p = "styles" -> {"font-face-decls", "styles", "automatic-styles", "master-styles"}
                [] p = "meta" -> {"meta"}
                [] OTHER -> DOMAIN Rank
Sorted(l) == LET f == SelectSeq(l, LAMBDA e : e[1] \in DOMAIN Rank) IN \A i, j \in 1..Len(f) : i < j => Rank[f[i][1]] < Rank[f[j][1]]
Held(l, t) == LET f == SelectSeq(l, LAMBDA e : e[1] = t) IN IF f = <<>> THEN <<>> ELSE f[1][2]
\* a missing part is created with empty frame elements
Content(parts, p) == IF p \in DOMAIN parts THEN parts[p] ELSE <<>>
Opened(k, parts) ==
    [k |-> k,
     parts |-> [p \in Parts(k) |-> [t \in Allowed(p) |-> Held(Content(parts, p), t)]],
     other |-> [p \in Parts(k) |-> LET f == SelectSeq(Content(parts, p), LAMBDA e : e[1] \notin DOMAIN Rank) IN [i \in 1..Len(f) |-> f[i][2][1]]],
     wf |-> <<>>]
AOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
AOk(s) == { AOut("ok", <<>>, s) }
FrameApply(s, op) ==
  CASE op.a \in {"open", "template"} -> AOk(Opened(op.k, op.parts))
    [] op.a = "new" -> AOk(Opened(op.k, [p \in {} |-> <<>>]))
    [] op.a = "put" -> AOk([s EXCEPT !.parts[op.p][op.t] = Append(@, op.n)])
    [] op.a = "reopen" -> AOk(s)
    [] OTHER -> {}
=============================================================================
