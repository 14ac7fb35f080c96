------------------------------ MODULE NodeList ------------------------------
(* Every element as a list of its children (C20): a forest of elements.     *)
(*  tag  : kind of each element      kids : its children, in order          *)
(*  text : its own text              v    : views that disagree (empty)     *)
EXTENDS ListOps
NodeListNull == [tag |-> <<>>, kids |-> <<>>, text |-> <<>>, v |-> <<>>]
NOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
NOk(s) == { NOut("ok", <<>>, s) }
NRej(s) == { NOut("rej", <<>>, s) }
NQ(s, q) == { NOut("ok", q, s) }

Parent(s, x) == IF \E p \in 1..Len(s.kids) : LHas(s.kids[p], x) THEN CHOOSE p \in 1..Len(s.kids) : LHas(s.kids[p], x) ELSE 0
RECURSIVE IsAnc(_, _, _)
IsAnc(s, a, x) == a = x \/ (Parent(s, x) # 0 /\ IsAnc(s, a, Parent(s, x)))
RECURSIVE RootOf(_, _)
RootOf(s, x) == IF Parent(s, x) = 0 THEN x ELSE RootOf(s, Parent(s, x))
\* x leaves every other parent
Others(s, p, x) == [i \in 1..Len(s.kids) |-> IF i = p THEN s.kids[i] ELSE LWithout(s.kids[i], x)]
WithKids(s, p, x, ks) == [s EXCEPT !.kids = [Others(s, p, x) EXCEPT ![p] = ks]]
Tagged(s, p, tag) == SelectSeq(s.kids[p], LAMBDA k : s.tag[k] = tag)
NAppend(s, p, x) == IF IsAnc(s, x, p) THEN NRej(s) ELSE NOk(WithKids(s, p, x, Append(LWithout(s.kids[p], x), x)))
NReplace(s, p, i, x) == IF IsAnc(s, x, p) THEN NRej(s) ELSE NOk(WithKids(s, p, x, LReplace(s.kids[p], i, x)))

NodeListApply(s, op) ==
  CASE op.a = "setup" -> NOk([tag |-> op.tag, kids |-> op.kids, text |-> [i \in 1..Len(op.tag) |-> ""], v |-> <<>>])
    [] op.a = "create" -> NOk([s EXCEPT !.tag = Append(@, op.tag), !.kids = Append(@, <<>>), !.text = Append(@, "")])
    [] op.a = "append" -> NAppend(s, op.p, op.x)
    [] op.a = "insert" -> IF IsAnc(s, op.x, op.p) THEN NRej(s)
                          ELSE { NOut("ok", <<>>, WithKids(s, op.p, op.x, LMove(s.kids[op.p], pl, op.x))) : pl \in LPlaces(op.i, Len(s.kids[op.p])) }
    [] op.a = "set" -> IF LIn(op.i, Len(s.kids[op.p])) THEN NReplace(s, op.p, LPos(op.i, Len(s.kids[op.p])) + 1, op.x) ELSE NRej(s)
    [] op.a = "delete" -> IF LIn(op.i, Len(s.kids[op.p])) THEN NOk([s EXCEPT !.kids[op.p] = LDelete(@, LPos(op.i, Len(@)) + 1)]) ELSE NRej(s)
    [] op.a = "get" -> IF LIn(op.i, Len(s.kids[op.p])) THEN NQ(s, <<s.kids[op.p][LPos(op.i, Len(s.kids[op.p])) + 1]>>) ELSE NRej(s)
    [] op.a = "index" -> IF LHas(s.kids[op.p], op.x) THEN NQ(s, <<LWhere(s.kids[op.p], op.x) - 1>>) ELSE NRej(s)
    [] op.a = "insert_before" -> IF ~LHas(s.kids[op.p], op.t) \/ IsAnc(s, op.x, op.p) THEN NRej(s)
                                 ELSE NOk(WithKids(s, op.p, op.x, LMove(s.kids[op.p], LWhere(s.kids[op.p], op.t) - 1, op.x)))
    [] op.a = "remove" -> IF LHas(s.kids[op.p], op.x) THEN NOk([s EXCEPT !.kids[op.p] = LWithout(@, op.x)]) ELSE NRej(s)
    [] op.a = "replace" -> IF LHas(s.kids[op.p], op.t) THEN NReplace(s, op.p, LWhere(s.kids[op.p], op.t), op.x) ELSE NRej(s)
    [] op.a = "clear" -> NOk([s EXCEPT !.kids[op.p] = <<>>, !.text[op.p] = ""])
    [] op.a = "find" -> LET f == Tagged(s, op.p, op.tag) IN NQ(s, IF f = <<>> THEN <<0>> ELSE <<f[1]>>)
    [] op.a = "findall" -> NQ(s, Tagged(s, op.p, op.tag))
    [] op.a = "root" -> NQ(s, <<RootOf(s, op.p)>>)
    \* change a child through a fresh wrapper of it
    [] op.a = "mark" -> IF LIn(op.i, Len(s.kids[op.p]))
                        THEN NOk([s EXCEPT !.text[s.kids[op.p][LPos(op.i, Len(s.kids[op.p])) + 1]] = op.t]) ELSE NRej(s)
    [] OTHER -> {}

Forest(s) == /\ \A p \in 1..Len(s.kids) : Cardinality(LRange(s.kids[p])) = Len(s.kids[p])
             /\ \A p, q \in 1..Len(s.kids) : p # q => LRange(s.kids[p]) \cap LRange(s.kids[q]) = {}
             /\ \A p \in 1..Len(s.kids) : RootOf(s, p) \in 1..Len(s.kids)
=============================================================================
