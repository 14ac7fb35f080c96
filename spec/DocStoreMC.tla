----------------------------- MODULE DocStoreMC -----------------------------
EXTENDS DocStore, Explore
CONSTANTS Handles, Targets, Dirs, Acts
Live == hist # <<>>
C(type, kind, cont, ext, unk, man, cyc) ==
    [type |-> type, cont |-> cont, kind |-> kind, ext |-> ext, unk |-> unk, man |-> man, wf |-> <<>>,
     meta |-> [cyc |-> cyc, gen |-> "fix", date |-> "old", born |-> "fix"]]
Junk(t) == [type |-> "junk:" \o t, cont |-> NoCont, kind |-> "", ext |-> <<>>, unk |-> <<>>, man |-> <<>>, wf |-> <<>>, meta |-> NoMeta]
Rich == C("pkg", "odt", [body |-> <<"p1", "\\t \\t">>, sty |-> <<"S1">>, title |-> "T", keys |-> <<"k">>, uf |-> "u0", rich |-> <<>>],
          << <<"Pictures/", "d">>, <<"Pictures/a.png", "img">>, <<"settings.xml", "set">> >>, <<"attr", "content", "meta", "styles", "user">>,
          << <<"Pictures/a.png", "image/png">>, <<"settings.xml", "text/xml">> >>, 7)
Tmpl == C("pkg", "ots", [NoCont EXCEPT !.body = <<"s1">>], << <<"Thumbnails/t.png", "thumb">> >>, <<>>, <<>>, -1)
Odd == C("pkg", "ods", [NoCont EXCEPT !.body = <<"s1", "s2">>, !.title = "T"], << <<"x.bin", "bin">> >>, <<"styles">>, << <<"x.bin", "">> >>, -2)
Flat == C("flat", "odt", [NoCont EXCEPT !.body = <<"p1">>, !.sty = <<"S1">>, !.title = "T"], <<>>, <<"meta">>, <<>>, 3)
F(n, c, lay) == [n |-> n, c |-> c, lay |-> lay]
Presets == [ one |-> << F("a", Rich, "std"), F("t", Tmpl, "std"), F("j", Junk("x"), "") >>,
             two |-> << F("a", Odd, "late"), F("f", Flat, ""), F("a.bak", Junk("y"), ""), F("a.tmp", Junk("z"), "") >>,
             three |-> << F("b", Rich, "nomime"), F("t", [Odd EXCEPT !.man = <<>>], "noman"), F("w", Rich, "twice") >>,
             four |-> << F("a", Rich, "typeless"), F("t", Odd, "bare"), F("p", Rich, "piped") >>,
             five |-> << F("a", Rich, "versioned"), F("t", Odd, "rootlast"), F("q", Tmpl, "rootlast") >>,
             six |-> << F("b.odt", [Rich EXCEPT !.wf = <<"untyped", "b.odt">>], "untyped"), F("t.ots", [Tmpl EXCEPT !.wf = <<"untyped", "t.ots">>], "untyped") >> ]
Init0 == ~Live /\ \E p \in Dirs : Do([a |-> "init", files |-> Presets[p]])
Files == DOMAIN st.ftype \ {"0"}
Plain == { n \in Files : n \notin {"~1", "~2"} }
Docs == DOMAIN st.mem \ {"0"}
Fresh(d) == ~Exists(st, d) /\ (d = "1" \/ Exists(st, "1"))      \* handles are used in order
On(a) == Live /\ a \in Acts
New == On("new") /\ \E d \in Handles, k \in {"odt", "ods"} : Fresh(d) /\ Do([a |-> "new", d |-> d, k |-> k, f |-> ""])
Open == On("open") /\ \E d \in Handles, f \in Files \cup {"missing"}, how \in {"path", "bytes", "stream", "samestream"} :
          Fresh(d) /\ (how = "path" \/ IsPkg(st, f)) /\ (f \in {"~1", "~2"} => how \in {"bytes", "samestream"}) /\ (how = "samestream" => f \in {"~1", "~2"}) /\ Do([a |-> "open", d |-> d, f |-> f, how |-> how])
Template == On("template") /\ \E d \in Handles, t \in Plain \cup {"missing"}, how \in {"path", "bytes"} :
          Fresh(d) /\ (how = "path" \/ IsPkg(st, t)) /\ Do([a |-> "template", d |-> d, t |-> t, f |-> "", how |-> how])
Edit == On("edit") /\ \E d \in Docs : Len(st.mem[d].body) <= 3 /\ (Do([a |-> "edit", d |-> d, x |-> IF st.mkind[d] = "odt" THEN "\\t\\n" ELSE "new"]) \/ Do([a |-> "style", d |-> d, x |-> "N1"]))
EditMore == On("editmore") /\ \E d \in Docs : \/ Do([a |-> "title", d |-> d, x |-> "New"]) \/ Do([a |-> "key", d |-> d, x |-> "word"])
                                              \/ (st.mem[d].rich = <<>> /\ Do([a |-> "rich", d |-> d, n |-> 7]))
                                              \/ Do([a |-> "uf", d |-> d, x |-> "val"]) \/ Do([a |-> "cut", d |-> d]) \/ Do([a |-> "clear", d |-> d])
Backup == On("backup") /\ \E d \in Docs : st.hid[d].backup /\ Do([a |-> "backup", d |-> d, b |-> FALSE])
Listen == On("listen") /\ \E d \in Docs, w \in {"r", "w"} : Len(st.lst) < 2 /\ Do([a |-> "listen", d |-> d, w |-> w])
SaveD == On("save") /\ \E d \in Docs : st.mname[d] \notin {"~1", "~2"} /\ Do([a |-> "save", d |-> d])
SaveAs == On("saveas") /\ \E d \in Docs, f \in Targets : Do([a |-> "saveas", d |-> d, f |-> f])
SaveStream == On("savestream") /\ \E d \in Docs : ~st.hid[d].flat /\ "~1" \notin Files /\ Do([a |-> "savestream", d |-> d, f |-> "~1"])
ToBytes == On("tobytes") /\ \E d \in Docs : Do([a |-> "tobytes", d |-> d])
\* another program removes or replaces a file
Unlink == On("unlink") /\ \E f \in Plain : Do([a |-> "unlink", f |-> f])
Other == C("pkg", "odp", [NoCont EXCEPT !.body = <<"q">>], << <<"Pictures/a.png", "other">>, <<"y.bin", "other">> >>, <<>>, <<>>, 5)
PutF == On("put") /\ \E f \in Plain : FileOf(st, f) # Other /\ Do([a |-> "put", f |-> f, c |-> Other, lay |-> "std"])
Next == Shallow /\ (Init0 \/ New \/ Open \/ Template \/ Edit \/ EditMore \/ Backup \/ Listen \/ SaveD \/ SaveAs \/ SaveStream \/ ToBytes \/ Unlink \/ PutF)
Spec == ExploreInit /\ [][Next]_evars
Inv == DocStoreOk(st)
\* at most the target and its backup change, and the backup gets what the target held
Discipline == [][ (Len(hist) > 0 /\ hist' # hist) =>
    LET op == LastOp'.o ch == { n \in DOMAIN st'.ftype : n \notin DOMAIN st.ftype \/ FileOf(st', n) # FileOf(st, n) }
    IN /\ (op.a # "unlink" => DOMAIN st.ftype \subseteq DOMAIN st'.ftype)
       /\ (op.a \notin {"save", "saveas", "savestream", "put"} => ch = {})
       /\ (op.a \in {"unlink", "put"} => st'.mem = st.mem /\ st'.hid = st.hid)
       /\ (op.a \in {"save", "saveas", "savestream"} /\ LastOp'.r = "ok" =>
             LET n == st'.mname[op.d] IN ch \subseteq {n, Bak(n)} /\ (Bak(n) \in ch => n \in DOMAIN st.ftype /\ FileOf(st', Bak(n)) = FileOf(st, n)))
  ]_evars
\* what is in a saved file is what the document holds, with all parts of its source
Faithful == [][ (Len(hist) > 0 /\ hist' # hist /\ LastOp'.r = "ok" /\ LastOp'.o.a \in {"save", "saveas", "savestream"}) =>
    LET d == LastOp'.o.d n == st'.mname[d]
    IN st'.fcont[n] = st'.mem[d] /\ st'.fext[n] = st.hid[d].ext /\ st'.fkind[n] = st.mkind[d] /\ st'.fmeta[n].cyc = NextCyc(st.hid[d].meta.cyc) ]_evars
=============================================================================
