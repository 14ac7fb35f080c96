----------------------------- MODULE PackageMC -----------------------------
EXTENDS Package, Explore

Live == hist # <<>>
Texts == { M("text"), M("text-template"), M("tex"), "", M("text") \o "\n", M("spreadsheet") }
SubSeqs(q) == { SelectSeq(q, LAMBDA x : x \in S) : S \in SUBSET { q[i] : i \in 1..Len(q) } }
Z(f, mt, p, m, r) == [type |-> "zip", first |-> f, mt |-> mt, parts |-> p, man |-> m, root |-> r]
HasMan(p) == LHas(p, "META-INF/manifest.xml")
\* everything about the mimetype with complete parts, everything about the parts with the proper mimetype
Packages == { Z(f, mt, Parts, Listed, r) : f \in {"ok", "late", "deflated", "extra"}, mt \in Texts, r \in Texts \cup {"#none"} }
       \cup { Z("none", "", Parts, Listed, r) : r \in Texts \cup {"#none"} }
       \cup { Z("ok", M("text"), p, m, r) : p \in { q \in SubSeqs(Parts) : HasMan(q) }, m \in SubSeqs(Listed), r \in {M("text"), "#none"} }
       \cup { Z("ok", M("text"), p, <<>>, "#none") : p \in { q \in SubSeqs(Parts) : ~HasMan(q) } }
Make == ~Live /\ \E p \in Packages, b \in BOOLEAN : Do([a |-> "make", p |-> p, decoys |-> b])   \* further parts of similar names do not count
Spoil == ~Live /\ \E t \in {"junk", "dir", "missing"} : Do([a |-> "spoil", t |-> t])
New == ~Live /\ \E mt \in KnownTypes : Do([a |-> "new", mt |-> mt])
Check == Live /\ \E mt \in (Texts \ {""}) \cup {M("graphics")} : Do([a |-> "check", mt |-> mt])
Resave == Live /\ Do([a |-> "resave"])
Next == Shallow /\ (Make \/ Spoil \/ New \/ Check \/ Resave)
Spec == ExploreInit /\ [][Next]_evars
\* at most one type is right
Inv == \A a, b \in Texts : Valid(st, a) /\ Valid(st, b) => a = b
\* what the library wrote is always accepted
Saved == [][ (Len(hist') > 0 /\ hist' # hist /\ hist'[Len(hist')].o.a \in {"resave", "new"}) => Valid(st', st'.mt) ]_evars
=============================================================================
