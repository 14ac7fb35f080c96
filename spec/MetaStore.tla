------------------------------ MODULE MetaStore ------------------------------
(* Document metadata (C21): four independent stores in one element.          *)
(*  tags : value of each documented tag, "!" if absent                       *)
(*  kw   : keywords in order        user : <<name, value, type>> in order    *)
(*  stat : <<name, integer>> in the order first set                          *)
(*  other: other elements of the metadata, in order                          *)
(*  v    : getters/iterators that disagree (always empty)                    *)
EXTENDS ListOps, TLC
Keys == {"generator", "title", "description", "subject", "initial-creator", "creator", "creation-date", "date", "editing-cycles", "language"}
Stats == {"page", "table", "draw", "image", "object", "ole-object", "paragraph", "word", "character", "row", "frame", "sentence",
          "syllable", "non-whitespace-character", "cell"}
Absent == "!"
NoTags == [k \in Keys |-> Absent]
MetaStoreNull == [tags |-> NoTags, kw |-> <<>>, user |-> <<>>, stat |-> <<>>, other |-> <<>>, v |-> <<>>]
MOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
MOk(s) == { MOut("ok", <<>>, s) }
MRej(s) == { MOut("rej", <<>>, s) }
MQ(s, q) == { MOut("ok", q, s) }

Names(m) == { m[i][1] : i \in 1..Len(m) }
At(m, n) == CHOOSE i \in 1..Len(m) : m[i][1] = n
\* insertion ordered maps
MPut(m, e) == IF e[1] \in Names(m) THEN [m EXCEPT ![At(m, e[1])] = e] ELSE Append(m, e)
MDel(m, n) == SelectSeq(m, LAMBDA e : e[1] # n)
\* types a user tag may have afterwards: the given one; without one the old type may be kept
Types(m, n, t) == IF t # "" THEN {t} ELSE {"string"} \cup (IF n \in Names(m) THEN {m[At(m, n)][3]} ELSE {})
RECURSIVE Puts(_, _)
\* update with several entries, each without a type
Puts(m, es) == IF es = <<>> THEN {m}
               ELSE UNION { Puts(MPut(m, <<es[1][1], es[1][2], t>>), Tail(es)) : t \in Types(m, es[1][1], "") }
RECURSIVE SPuts(_, _)
SPuts(m, es) == IF es = <<>> THEN m ELSE SPuts(MPut(m, es[1]), Tail(es))
StatNames(es) == { es[i][1] : i \in 1..Len(es) }
\* what a count of editing cycles becomes: numbers are given with their value
Inc(old, num) == IF old = Absent \/ num = -1 THEN "1" ELSE ToString(num + 1)

MetaStoreApply(s, op) ==
  CASE op.a = "new" -> MOk([MetaStoreNull EXCEPT !.tags = [k \in Keys |-> CASE k = "creation-date" -> "@now" [] k = "date" -> "@now"
                                                                     [] k = "generator" -> "@lib" [] OTHER -> Absent]])
    [] op.a = "load" -> MOk([MetaStoreNull EXCEPT !.tags = [k \in Keys |-> IF k \in DOMAIN op.tags THEN op.tags[k] ELSE Absent],
                                                  !.kw = op.kw, !.user = op.user, !.stat = op.stat,  \* texts which are no numbers count as 0
                                                  !.other = op.other])
    [] op.a = "set" -> IF op.k \in Keys THEN MOk([s EXCEPT !.tags[op.k] = op.x]) ELSE MRej(s)
    [] op.a = "set_bad" -> MRej(s)         \* a value that is no text
    [] op.a = "get" -> IF op.k \in Keys /\ s.tags[op.k] # Absent THEN MQ(s, <<s.tags[op.k]>>) ELSE MRej(s)
    [] op.a = "kw_add" -> MOk([s EXCEPT !.kw = IF LHas(@, op.x) THEN @ ELSE Append(@, op.x)])
    [] op.a = "kw_bad" -> MRej(s)
    [] op.a = "kw_remove" -> MOk([s EXCEPT !.kw = LWithout(@, op.x)])
    [] op.a = "kw_has" -> MQ(s, <<LHas(s.kw, op.x)>>)
    [] op.a = "kw_clear" -> MOk([s EXCEPT !.kw = <<>>])
    [] op.a = "u_set" -> { MOut("ok", <<>>, [s EXCEPT !.user = MPut(@, <<op.n, op.x, t>>)]) : t \in Types(s.user, op.n, op.t) }
    [] op.a = "u_bad" -> MRej(s)
    [] op.a = "u_get" -> IF op.n \in Names(s.user) THEN MQ(s, <<s.user[At(s.user, op.n)][2]>>) ELSE MRej(s)
    [] op.a = "u_type" -> IF op.n \in Names(s.user) THEN MQ(s, <<s.user[At(s.user, op.n)][3]>>) ELSE MRej(s)
    [] op.a = "u_has" -> MQ(s, <<op.n \in Names(s.user)>>)
    [] op.a = "u_del" -> IF op.n \in Names(s.user) THEN MOk([s EXCEPT !.user = MDel(@, op.n)]) ELSE MRej(s)
    [] op.a = "u_update" -> { MOut("ok", <<>>, [s EXCEPT !.user = m]) : m \in Puts(s.user, op.es) }
    [] op.a = "u_clear" -> MOk([s EXCEPT !.user = <<>>])
    [] op.a = "s_set" -> IF op.n \in Stats THEN MOk([s EXCEPT !.stat = MPut(@, <<op.n, op.x>>)]) ELSE MRej(s)
    [] op.a = "s_get" -> IF op.n \in Stats THEN MQ(s, <<IF op.n \in Names(s.stat) THEN s.stat[At(s.stat, op.n)][2] ELSE 0>>) ELSE MRej(s)
    [] op.a = "s_update" -> IF StatNames(op.es) \subseteq Stats THEN MOk([s EXCEPT !.stat = SPuts(@, op.es)]) ELSE {}
    [] op.a = "s_clear" -> MOk([s EXCEPT !.stat = <<>>])
    [] op.a = "clear" -> MOk(MetaStoreNull)
    [] op.a = "touch" -> MOk([s EXCEPT !.tags["date"] = "@now", !.tags["generator"] = "@lib"])
    [] op.a = "inc" -> MOk([s EXCEPT !.tags["editing-cycles"] = Inc(@, op.num)])
    [] op.a = "reload" -> MOk(s)
    [] OTHER -> {}

MapInv(s) == /\ Cardinality(Names(s.user)) = Len(s.user) /\ Cardinality(Names(s.stat)) = Len(s.stat)
             /\ Cardinality(LRange(s.kw)) = Len(s.kw)
=============================================================================
