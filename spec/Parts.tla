------------------------------- MODULE Parts -------------------------------
(* Parts registered with the file manager of a document (C33).               *)
(*  part : content of the part, for each of Names; "#none" if there is none  *)
(*  man  : media type the manifest gives for it; "#none" if it is not listed *)
(*  live : the part is an object, told its content when a package is written *)
(*  bad  : what is wrong with the package (empty)                            *)
EXTENDS ListOps
Names == <<"Pictures/a.png", "Pictures/A.png", "Pictures/a", "settings.xml", "Object 1/content.xml", "Thumbnails/thumbnail.png", "\\xe9/b c.bin", "content.xml.bak">>
Blank == [i \in 1..Len(Names) |-> "#none"]
Nowhere == [i \in 1..Len(Names) |-> FALSE]
PartsNull == [part |-> Blank, man |-> Blank, live |-> Nowhere, bad |-> <<>>]
POut(r, q, s) == [r |-> r, q |-> q, s |-> s]
POk(s) == { POut("ok", <<>>, s) }
PartsApply(s, op) ==
  CASE op.a = "new" -> POk(PartsNull)
    [] op.a = "open" -> POk([PartsNull EXCEPT !.part = op.part, !.man = op.man])
    \* the last registration of a name counts, and wins over a part of the opened package
    [] op.a = "register" -> POk([s EXCEPT !.part[op.i] = op.c, !.man[op.i] = op.m, !.live[op.i] = (op.how = "obj")])
    [] op.a = "edit" -> IF s.live[op.i] THEN POk([s EXCEPT !.part[op.i] = op.c]) ELSE {}
    [] op.a = "list" -> POk([s EXCEPT !.man[op.i] = op.m])
    [] op.a = "unlist" -> POk([s EXCEPT !.man[op.i] = "#none"])
    \* every way to write tells the same and changes nothing
    [] op.a = "save" -> { POut("ok", <<[part |-> s.part, man |-> s.man, bad |-> <<>>]>>, s) }
    [] op.a \in {"reopen", "template"} -> POk([s EXCEPT !.live = Nowhere])
    [] OTHER -> {}
PartsOk(s) == /\ \A i \in 1..Len(Names) : s.live[i] => s.part[i] # "#none"
              /\ s.bad = <<>>
=============================================================================
