------------------------------ MODULE NodeOrg ------------------------------
(* Prelude and epilogue blocks of a node (C28).                             *)
(*  kids : children <<tag, number>>; pre, epi : the block tags in order      *)
EXTENDS ListOps
NodeOrgNull == [kids |-> <<>>, pre |-> <<>>, epi |-> <<>>]
GOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
GQ(s, q) == { GOut("ok", q, s) }
GRej(s) == { GOut("rej", <<>>, s) }

In(tags, t) == LHas(tags, t)
Rk(tags, t) == LWhere(tags, t)
\* length of the prelude: children in the order of the tags, from the front
RECURSIVE PLenFrom(_, _, _)
PLenFrom(ks, tags, i) == IF i > Len(ks) \/ ~In(tags, ks[i][1]) \/ (i > 1 /\ Rk(tags, ks[i][1]) < Rk(tags, ks[i - 1][1]))
                         THEN i - 1 ELSE PLenFrom(ks, tags, i + 1)
PLen(ks, tags) == PLenFrom(ks, tags, 1)
\* number of children in front of the epilogue
RECURSIVE EStartFrom(_, _, _)
EStartFrom(ks, tags, i) == IF i = 0 \/ ~In(tags, ks[i][1]) \/ (i < Len(ks) /\ Rk(tags, ks[i][1]) > Rk(tags, ks[i + 1][1]))
                           THEN i ELSE EStartFrom(ks, tags, i - 1)
EStart(ks, tags) == EStartFrom(ks, tags, Len(ks))
\* block places as an interval <<first, last>> (1-based) and its tags
Block(s, w) == IF w = "p" THEN <<1, PLen(s.kids, s.pre)>> ELSE <<EStart(s.kids, s.epi) + 1, Len(s.kids)>>
Tags(s, w) == IF w = "p" THEN s.pre ELSE s.epi
Places(s, w, t) == { i \in Block(s, w)[1]..Block(s, w)[2] : s.kids[i][1] = t }
Lower(s, w, t) == { i \in Block(s, w)[1]..Block(s, w)[2] : Rk(Tags(s, w), s.kids[i][1]) < Rk(Tags(s, w), t) }
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
Info(s, w, t) == LET ps == Places(s, w, t) IN IF ps = {} THEN <<-1, 0>> ELSE <<MinOf(ps) - 1, Cardinality(ps)>>
\* where a new t goes: in front of / behind all t of the block, so that the block stays ordered
Before(s, w, t) == Block(s, w)[1] - 1 + Cardinality(Lower(s, w, t))
After(s, w, t) == Before(s, w, t) + Cardinality(Places(s, w, t))
\* the whole block, if no tag is given
Position(s, w, side, t) == IF t = "" THEN IF w = "p" THEN Block(s, w)[2] ELSE Block(s, w)[1] - 1
                           ELSE IF side = "before" THEN Before(s, w, t) ELSE After(s, w, t)
Asked(s, w, side, t) == IF t = "" THEN (w = "p") = (side = "after") ELSE In(Tags(s, w), t)

RECURSIVE Grouped(_, _)
Grouped(ks, tags) == IF tags = <<>> THEN <<>>
                     ELSE SelectSeq(ks, LAMBDA k : k[1] = tags[1]) \o Grouped(ks, Tail(tags))
Reordered(s) == Grouped(s.kids, s.pre) \o SelectSeq(s.kids, LAMBDA k : ~In(s.pre, k[1]) /\ ~In(s.epi, k[1])) \o Grouped(s.kids, s.epi)
Mid == {"g", "h"}
Valid(s) == \A i \in (PLen(s.kids, s.pre) + 1)..EStart(s.kids, s.epi) : s.kids[i][1] \in Mid
Distinct(seq) == Cardinality(LRange(seq)) = Len(seq)

NodeOrgApply(s, op) ==
  CASE op.a = "setup" -> { GOut("ok", <<>>, [kids |-> op.kids, pre |-> op.pre, epi |-> op.epi]) }
    [] op.a = "reorder" -> { GOut("ok", <<>>, [s EXCEPT !.kids = Reordered(s)]) }
    [] op.a = "len" -> GQ(s, <<Block(s, op.w)[2] - Block(s, op.w)[1] + 1>>)
    [] op.a = "info" -> IF In(Tags(s, op.w), op.t) THEN GQ(s, Info(s, op.w, op.t)) ELSE GRej(s)
    [] op.a = "position" -> IF Asked(s, op.w, op.side, op.t) THEN GQ(s, <<Position(s, op.w, op.side, op.t)>>) ELSE GRej(s)
    \* insert a new element at the reported position
    [] op.a = "put" -> IF Asked(s, op.w, op.side, op.t)
                       THEN LET p == Position(s, op.w, op.side, op.t)
                            IN { GOut("ok", <<p>>, [s EXCEPT !.kids = LInsert(@, p, op.x)]) }
                       ELSE GRej(s)
    [] op.a = "drop" -> IF op.i < Len(s.kids) THEN { GOut("ok", <<>>, [s EXCEPT !.kids = LDelete(@, op.i + 1)]) } ELSE {}
    [] op.a = "valid" -> GQ(s, <<Valid(s)>>)
    [] op.a = "block" -> IF op.tags # <<>> /\ Distinct(op.tags) THEN GQ(s, <<>>) ELSE GRej(s)
    [] OTHER -> {}

\* reordering keeps every child and makes the blocks complete
SameKids(a, b) == LRange(a) = LRange(b) /\ Len(a) = Len(b)
ReorderedOk(s) == LET k == Reordered(s) IN
    /\ SameKids(k, s.kids)
    /\ \A i \in (PLen(k, s.pre) + 1)..EStart(k, s.epi) : ~In(s.pre, k[i][1]) /\ ~In(s.epi, k[i][1])
\* putting a t where told keeps the block in one piece and ordered
PutOk(s, w, side, t) == LET p == Position(s, w, side, t)
                            k == LInsert(s.kids, p, <<t, 0>>)
                        IN IF w = "p" THEN PLen(k, s.pre) >= PLen(s.kids, s.pre) + 1 ELSE EStart(k, s.epi) <= EStart(s.kids, s.epi)
=============================================================================
