------------------------------ MODULE BodyOrder ------------------------------
(* The children of a document body between prelude and epilogue (C19).      *)
(*  kids : the children in order: prelude elements "a:<tag>", epilogue       *)
(*         elements "z:<tag>#<n>", content elements "c:<n>", declaration     *)
(*         elements created by the library "a:variable-decls",              *)
(*         "a:user-field-decls"                                             *)
(*  free : content elements that exist outside the body                     *)
EXTENDS ListOps, SequencesExt
BodyOrderNull == [kids |-> <<>>, free |-> <<>>]
BOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
BOk(s) == { BOut("ok", <<>>, s) }
BRej(s) == { BOut("rej", <<>>, s) }

\* class of each element is given with the layout
Pre(x) == x[1] = "a"
Epi(x) == x[1] = "z"
\* elements are tuples <<class, tag, number>>
RECURSIVE LeadFrom(_, _)
LeadFrom(ks, i) == IF i > Len(ks) \/ ~Pre(ks[i]) THEN i - 1 ELSE LeadFrom(ks, i + 1)
Lead(ks) == LeadFrom(ks, 1)
RECURSIVE TrailFrom(_, _)
TrailFrom(ks, i) == IF i = 0 \/ ~Epi(ks[i]) THEN i ELSE TrailFrom(ks, i - 1)
\* number of elements before the trailing epilogue elements
Trail(ks) == TrailFrom(ks, Len(ks))
\* the trailing elements that are also in the documented order
EpiOrder == <<"named-expressions", "database-ranges", "data-pilot-tables", "consolidation", "dde-links">>
Rank(x) == LWhere(EpiOrder, x[2])
RECURSIVE OrderedFrom(_, _)
OrderedFrom(ks, i) == IF i = 0 \/ ~Epi(ks[i]) \/ (i < Len(ks) /\ Rank(ks[i]) > Rank(ks[i + 1])) THEN i ELSE OrderedFrom(ks, i - 1)
Ordered(ks) == OrderedFrom(ks, Len(ks))

Decls == << <<"a", "variable-decls", 0>>, <<"a", "user-field-decls", 0>> >>
Missing(ks) == SelectSeq(Decls, LAMBDA d : ~\E i \in 1..Len(ks) : ks[i][2] = d[2])
\* missing declarations are added inside the prelude, before any content
RECURSIVE AddDecls(_, _)
AddDecls(ks, ds) == IF ds = <<>> THEN {ks}
                    ELSE UNION { AddDecls(LInsert(ks, p, ds[1]), Tail(ds)) : p \in 0..Lead(ks) }

\* behind all content, before the trailing epilogue elements (the block in documented order at least)
AppendPlaces(ks) == Trail(ks)..Ordered(ks)
Content(s) == SelectSeq(s.kids, LAMBDA x : x[1] = "c")
Taken(s, x, ks) == [s EXCEPT !.kids = ks, !.free = LWithout(@, x)]

BodyOrderApply(s, op) ==
  CASE op.a = "open" -> { BOut("ok", <<>>, [kids |-> k, free |-> <<>>]) : k \in AddDecls(op.kids, Missing(op.kids)) }
    [] op.a = "create" -> BOk([s EXCEPT !.free = Append(@, op.x)])
    [] op.a = "append" -> { BOut("ok", <<>>, Taken(s, op.x, LMove(s.kids, p, op.x))) : p \in AppendPlaces(s.kids) }
    [] op.a = "insert" -> { BOut("ok", <<>>, Taken(s, op.x, LMove(s.kids, p, op.x))) : p \in LPlaces(op.i, Len(s.kids)) }
    [] op.a = "insert_before" -> IF LHas(s.kids, op.t) THEN BOk(Taken(s, op.x, LMove(s.kids, LWhere(s.kids, op.t) - 1, op.x))) ELSE BRej(s)
    [] op.a = "set" -> IF LIn(op.i, Len(s.kids)) THEN LET p == LPos(op.i, Len(s.kids)) + 1
                                                      IN BOk([s EXCEPT !.kids = LReplace(@, p, op.x),
                                                                       !.free = IF s.kids[p][1] = "c" /\ s.kids[p] # op.x
                                                                                THEN Append(LWithout(@, op.x), s.kids[p]) ELSE LWithout(@, op.x)])
                                                 ELSE BRej(s)
    [] op.a = "replace" -> IF LHas(s.kids, op.t) THEN BOk([s EXCEPT !.kids = LReplace(@, LWhere(@, op.t), op.x),
                                                                    !.free = IF op.t # op.x THEN Append(LWithout(@, op.x), op.t) ELSE @])
                                                 ELSE BRej(s)
    [] op.a = "remove" -> IF LHas(s.kids, op.x) THEN BOk([s EXCEPT !.kids = LWithout(@, op.x), !.free = Append(@, op.x)]) ELSE BRej(s)
    [] op.a = "delete" -> IF LIn(op.i, Len(s.kids)) THEN LET p == LPos(op.i, Len(s.kids)) + 1
                                                         IN BOk([s EXCEPT !.kids = LDelete(@, p),
                                                                          !.free = IF s.kids[p][1] = "c" THEN Append(@, s.kids[p]) ELSE @])
                                                    ELSE BRej(s)
    [] op.a = "reopen" -> { BOut("ok", <<>>, [s EXCEPT !.kids = k, !.free = <<>>]) : k \in AddDecls(s.kids, Missing(s.kids)) }
    [] OTHER -> {}

\* after an append nothing of the content is behind the trailing epilogue elements
NoDup(s) == Cardinality(LRange(s.kids)) = Len(s.kids)
=============================================================================
