------------------------------ MODULE Package ------------------------------
(* What the package check says about a file (C32).                          *)
(*  type  : "zip", "junk", "dir", "missing"                                 *)
(*  first : the part "mimetype": "ok" first, stored, without extra field;   *)
(*          "late" elsewhere, "deflated", "extra", "none" not there         *)
(*  mt    : the text of this part                                           *)
(*  parts : which of the other required parts are there (sorted)            *)
(*  man   : which of the parts the manifest lists (sorted)                  *)
(*  root  : the media type the manifest gives for the package, "#none"      *)
EXTENDS ListOps, TLC
Parts == <<"META-INF/manifest.xml", "content.xml", "meta.xml", "styles.xml">>
Listed == <<"content.xml", "meta.xml", "styles.xml">>
PackageNull == [type |-> "missing", first |-> "none", mt |-> "", parts |-> <<>>, man |-> <<>>, root |-> "#none"]
KOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
M(k) == "application/vnd.oasis.opendocument." \o k
KnownTypes == { M(k) : k \in {"text", "spreadsheet", "graphics", "presentation", "chart", "image",
                              "text-template", "spreadsheet-template", "graphics-template", "presentation-template", "chart-template", "image-template",
                              "text-master", "text-web"} }
Proper(mt) == [type |-> "zip", first |-> "ok", mt |-> mt, parts |-> Parts, man |-> Listed, root |-> mt]
Valid(s, mt) == s = Proper(mt)
NoZip(t) == [PackageNull EXCEPT !.type = t]
\* an opened document has the type told by its mimetype part, or else by the manifest
TypeOf(s) == IF s.first # "none" THEN s.mt ELSE s.root

PackageApply(s, op) ==
  CASE op.a = "make" -> { KOut("ok", <<>>, op.p) }
    [] op.a = "spoil" -> { KOut("ok", <<>>, NoZip(op.t)) }
    [] op.a = "check" -> { KOut("ok", <<Valid(s, op.mt)>>, s) }
    \* open and save: whatever the package was, now it is a proper one of its type
    [] op.a = "resave" -> IF s.type = "zip" /\ TypeOf(s) \in KnownTypes THEN { KOut("ok", <<>>, Proper(TypeOf(s))) } ELSE {}
    [] op.a = "new" -> { KOut("ok", <<>>, Proper(op.mt)) }
    [] OTHER -> {}
=============================================================================
