------------------------------ MODULE DocStore ------------------------------
(* Documents in memory, packages and flat files in a directory (C01-C04, C06, C07). *)
(* What a file holds is split by the property that speaks about it:                 *)
(*   ftype : name -> "pkg" | "flat" | "junk:.."                                     *)
(*   fcont : name -> [body, sty, title, keys, uf, rich] the content put in by users  *)
(*   fkind : name -> kind        fext : name -> <<part, token>>   funk : markers    *)
(*   fman  : name -> <<path, type>> further manifest entries   fwf : defects, or    *)
(*           <<"untyped", name>> if only the file name tells what the package is    *)
(*   fmeta : name -> [cyc, gen, date, born]                                         *)
(* Names beginning with "~" are in-memory streams.                                  *)
(* Documents: mem, mmeta, mkind, mname as seen through the API, hid what only a later save *)
(* shows: [ext, unk, man, cyc, gen, date, born, flat, mgr, backup]             *)
EXTENDS ListOps, TLC
NoCont == [body |-> <<>>, sty |-> <<>>, title |-> "", keys |-> <<>>, uf |-> "", rich |-> <<>>]
NoMeta == [cyc |-> -1, gen |-> "", date |-> "", born |-> ""]
NoHid == [ext |-> <<>>, unk |-> <<>>, man |-> <<>>, meta |-> NoMeta, flat |-> FALSE, mgr |-> "file", backup |-> TRUE]
Meta0 == [cyc |-> -1, gen |-> "", born |-> ""]
K0(v) == [x \in {"0"} |-> v]
DocStoreNull == [ftype |-> K0(""), fcont |-> K0(NoCont), fkind |-> K0(""), fext |-> K0(<<>>), funk |-> K0(<<>>), fman |-> K0(<<>>),
                 fwf |-> K0(<<>>), fmeta |-> K0(NoMeta),
                 mem |-> K0(NoCont), mmeta |-> K0(Meta0), mkind |-> K0(""), mname |-> K0(""), hid |-> K0(NoHid), lst |-> <<>>]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
AOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
ARej(s) == { AOut("rej", <<>>, s) }
AOk(s) == { AOut("ok", <<>>, s) }

IsPkg(s, n) == n \in DOMAIN s.ftype /\ s.ftype[n] = "pkg"
IsFlat(s, n) == n \in DOMAIN s.ftype /\ s.ftype[n] = "flat"
FileOf(s, n) == [type |-> s.ftype[n], cont |-> s.fcont[n], kind |-> s.fkind[n], ext |-> s.fext[n], unk |-> s.funk[n],
                 man |-> s.fman[n], wf |-> s.fwf[n], meta |-> s.fmeta[n]]
PutFile(s, n, c) == [s EXCEPT !.ftype = Put(@, n, c.type), !.fcont = Put(@, n, c.cont), !.fkind = Put(@, n, c.kind), !.fext = Put(@, n, c.ext),
                              !.funk = Put(@, n, c.unk), !.fman = Put(@, n, c.man), !.fwf = Put(@, n, c.wf), !.fmeta = Put(@, n, c.meta)]
PutDoc(s, d, cont, kind, name, h) == [s EXCEPT !.mem = Put(@, d, cont), !.mmeta = Put(@, d, [cyc |-> h.meta.cyc, gen |-> h.meta.gen, born |-> h.meta.born]), !.mkind = Put(@, d, kind), !.mname = Put(@, d, name), !.hid = Put(@, d, h),
                                               !.lst = SelectSeq(@, LAMBDA l : l[1] # d)]
\* all files of a fixture directory
RECURSIVE PutFiles(_, _)
PutFiles(s, l) == IF l = <<>> THEN s ELSE PutFiles(PutFile(s, l[1].n, l[1].c), Tail(l))

\* wf of a package which does not declare what it is: <<"untyped", name>>
Known(s, op) == LET f == IF op.a = "open" THEN op.f ELSE op.t
                IN f \in DOMAIN s.fwf /\ s.fwf[f] # <<>> => op.how = "path" /\ s.fwf[f][2] = f
TemplateOf == [ott |-> "odt", ots |-> "ods", otg |-> "odg", otp |-> "odp", otc |-> "odc", oti |-> "odi", otf |-> "odf"]
DropTemplate(k) == IF k \in DOMAIN TemplateOf THEN TemplateOf[k] ELSE k

HidOf(s, n, mgr) == [ext |-> s.fext[n], unk |-> s.funk[n], man |-> s.fman[n], meta |-> s.fmeta[n],
                     flat |-> s.ftype[n] = "flat", mgr |-> mgr, backup |-> TRUE]
Exists(s, d) == d \in DOMAIN s.mem
Writers(s, d) == Len(SelectSeq(s.lst, LAMBDA l : l[1] = d /\ l[2] = "w"))
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE Append(Rep(x, n - 1), x)
NextCyc(c) == IF c < 0 THEN 1 ELSE c + 1
Meta3(m) == [cyc |-> m.cyc, gen |-> m.gen, born |-> m.born]
Bak(n) == n \o ".bak"

\* the document after the listeners have been told that it will be saved
SavedCont(s, d) == [s.mem[d] EXCEPT !.body = @ \o Rep("prep", Writers(s, d))]
SavedMeta(s, d) == [cyc |-> NextCyc(s.hid[d].meta.cyc), gen |-> "lib", date |-> "fresh", born |-> s.hid[d].meta.born]
Image(s, d, cont, meta) == [type |-> IF s.hid[d].flat THEN "flat" ELSE "pkg", cont |-> cont, kind |-> s.mkind[d], ext |-> s.hid[d].ext, unk |-> s.hid[d].unk,
                            man |-> s.hid[d].man, wf |-> <<>>, meta |-> meta]
Save(s, d, n, stream) ==
    LET cont == SavedCont(s, d)
        meta == SavedMeta(s, d)
        bak == ~stream /\ n \in DOMAIN s.ftype /\ s.hid[d].backup /\ s.hid[d].mgr = "file"
        s1 == IF bak THEN PutFile(s, Bak(n), FileOf(s, n)) ELSE s
        s2 == PutFile(s1, n, Image(s, d, cont, meta))
    IN [s2 EXCEPT !.mem[d] = cont, !.mname[d] = n, !.hid[d].meta = meta, !.mmeta = Put(@, d, [cyc |-> meta.cyc, gen |-> meta.gen, born |-> meta.born])]
\* where the bytes of every file come from: itself, another file, or new
From(s, s2, n, bak) == [x \in DOMAIN s2.ftype |-> IF x = n THEN "new" ELSE IF bak /\ x = Bak(n) THEN n ELSE x]
SaveLog(s, d) == LET ls == { i \in 1..Len(s.lst) : s.lst[i][1] = d } n == Cardinality(ls)
                 IN Rep("prepare:before", n) \o Rep("post:complete", n)
SaveOut(s, d, n, stream) ==
    LET s2 == Save(s, d, n, stream)
        bak == ~stream /\ n \in DOMAIN s.ftype /\ s.hid[d].backup /\ s.hid[d].mgr = "file"
    \* trees: the parts of the written file that are not the trees the document holds
    IN { AOut("ok", [from |-> From(s, s2, n, bak), log |-> SaveLog(s, d), trees |-> <<>>], s2) }
NoDir == "nodir/x.odt"
\* a save that cannot be done: no file changes; how far the document was prepared is not said
Told(s, d, m) == [s EXCEPT !.hid[d].meta = m, !.mmeta = Put(@, d, Meta3(m))]
FailOut(s, d, names) == { AOut("rej", <<>>, [t EXCEPT !.mname[d] = n]) :
                          n \in names, t \in { s, [s EXCEPT !.mem[d] = SavedCont(s, d)], Told([s EXCEPT !.mem[d] = SavedCont(s, d)], d, SavedMeta(s, d)), Told(s, d, SavedMeta(s, d)) } }

Gone(f, n) == [x \in (DOMAIN f) \ {n} |-> f[x]]
RemoveFile(s, n) == [s EXCEPT !.ftype = Gone(@, n), !.fcont = Gone(@, n), !.fkind = Gone(@, n), !.fext = Gone(@, n),
                              !.funk = Gone(@, n), !.fman = Gone(@, n), !.fwf = Gone(@, n), !.fmeta = Gone(@, n)]
DocStoreApply(s, op) ==
  CASE op.a = "init" -> AOk(PutFiles(DocStoreNull, op.files))
    \* other programs remove and replace files: documents in memory do not notice
    [] op.a = "unlink" -> AOk(RemoveFile(s, op.f))
    [] op.a = "put" -> AOk(PutFile(s, op.f, op.c))
    [] op.a = "new" -> AOk(PutDoc(s, op.d, NoCont, op.k, op.f, [NoHid EXCEPT !.meta = [cyc |-> -1, gen |-> "lib", date |-> "new", born |-> "new"]]))
    \* a package which declares no type: its file name tells it, nothing is said about other ways to open it
    [] op.a \in {"open", "template"} /\ ~Known(s, op) -> {}
    [] op.a = "open" ->
         IF IsPkg(s, op.f) \/ (op.how = "path" /\ IsFlat(s, op.f))
         THEN AOk(PutDoc(s, op.d, s.fcont[op.f], s.fkind[op.f], IF op.how = "path" THEN op.f ELSE "", HidOf(s, op.f, IF op.how = "path" THEN "file" ELSE "mem")))
         ELSE ARej(s)
    [] op.a = "template" ->
         IF IsPkg(s, op.t)
         THEN AOk(PutDoc(s, op.d, s.fcont[op.t], DropTemplate(s.fkind[op.t]), op.f, HidOf(s, op.t, IF op.how = "path" THEN "file" ELSE "mem")))
         ELSE ARej(s)
    [] op.a = "edit" -> AOk([s EXCEPT !.mem[op.d].body = Append(@, op.x)])
    \* an element with nested and foreign content, number op.n
    [] op.a = "rich" -> AOk([s EXCEPT !.mem[op.d].rich = Append(@, "r" \o ToString(op.n))])
    [] op.a = "cut" -> AOk([s EXCEPT !.mem[op.d].body = IF @ = <<>> THEN @ ELSE Tail(@)])
    [] op.a = "title" -> AOk([s EXCEPT !.mem[op.d].title = op.x])
    [] op.a = "clear" -> AOk([s EXCEPT !.mem[op.d].title = "", !.mem[op.d].keys = <<>>, !.hid[op.d].meta = NoMeta, !.mmeta = Put(@, op.d, Meta3(NoMeta)),
                                       !.hid[op.d].unk = SelectSeq(@, LAMBDA x : x \notin {"meta", "user"})])
    [] op.a = "style" -> AOk([s EXCEPT !.mem[op.d].sty = Append(@, op.x)])
    [] op.a = "key" -> AOk([s EXCEPT !.mem[op.d].keys = IF LHas(@, op.x) THEN @ ELSE Append(@, op.x)])
    [] op.a = "uf" -> IF s.mem[op.d].uf = "" THEN ARej(s) ELSE AOk([s EXCEPT !.mem[op.d].uf = op.x])
    [] op.a = "backup" -> AOk([s EXCEPT !.hid[op.d].backup = op.b])
    [] op.a = "listen" -> AOk([s EXCEPT !.lst = Append(@, <<op.d, op.w>>)])
    [] op.a = "save" -> IF s.mname[op.d] \in {"", NoDir} THEN FailOut(s, op.d, {s.mname[op.d]}) ELSE SaveOut(s, op.d, s.mname[op.d], FALSE)
    [] op.a = "saveas" -> IF op.f = NoDir THEN FailOut(s, op.d, {s.mname[op.d], NoDir}) ELSE SaveOut(s, op.d, op.f, FALSE)
    [] op.a = "savestream" -> SaveOut(s, op.d, op.f, TRUE)
    [] op.a = "tobytes" ->
         { AOut("ok", [from |-> [x \in DOMAIN s.ftype |-> x], log |-> <<>>, trees |-> <<>>,
                       tb |-> LET c == Image(s, op.d, s.mem[op.d], s.hid[op.d].meta)
                              IN [type |-> c.type, cont |-> c.cont, kind |-> c.kind, ext |-> c.ext, unk |-> c.unk, man |-> c.man, wf |-> <<>>, cyc |-> c.meta.cyc, born |-> c.meta.born]], s) }
    [] op.a = "look" -> { AOut("ok", [from |-> [x \in DOMAIN s.ftype |-> x], log |-> <<>>], s) }
    [] OTHER -> {}
\* consistency of the specification itself
DocStoreOk(s) ==
    /\ \A n \in DOMAIN s.ftype : n # "0" /\ s.ftype[n] = "pkg" => s.fkind[n] # ""
    /\ \A n \in DOMAIN s.ftype : s.fmeta[n].date = "fresh" => s.fmeta[n].cyc >= 1 /\ s.fmeta[n].gen = "lib"
=============================================================================
