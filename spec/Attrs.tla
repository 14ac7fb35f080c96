-------------------------------- MODULE Attrs --------------------------------
(* Attributes of wrapper objects and the structure of lists (C27).            *)
(*  k    : kind of the object                                                 *)
(*  at   : attribute -> what its getter answers ("none", "i:..", "s:..",      *)
(*         "b:true", "b:false")                                               *)
(*  set_ : attributes that are present                                        *)
(*  kids : children, "h:text" list header, "i:text" list item, "c" comment,     *)
(*         others opaque                                                   *)
(*  text : own text (without the formatted number)                            *)
(* A value is [t: type, s: its text, i: its integer, b: truth, cs: characters]*)
EXTENDS ListOps, TLC
AttrsNull == [k |-> "", at |-> [x \in {} |-> ""], set |-> <<>>, kids |-> <<>>, text |-> "", keyed |-> TRUE]

TypesOf(k) ==
  CASE k = "Span" -> [style_name |-> "string"]
    [] k = "Paragraph" -> [style_name |-> "string", cond_style_name |-> "string", ID |-> "string"]
    [] k = "Heading" -> [style_name |-> "string", outline_level |-> "level", restart_numbering |-> "bool", suppress_numbering |-> "bool",
                         start_value |-> "start", formatted_number |-> "number"]
    [] k = "NumberedParagraph" -> [level |-> "level", start_value |-> "start", formatted_number |-> "number"]
    [] k = "Hyperlink" -> [style_name |-> "string", name |-> "string", href |-> "string", target_frame |-> "frame", show |-> "auto"]
    [] k = "List" -> [style_name |-> "string", continue_numbering |-> "bool"]
    [] k = "ListItem" -> [start_value |-> "start", formatted_number |-> "number"]
    [] k = "Section" -> [style_name |-> "string", name |-> "string", protected |-> "prot"]
    [] k = "Table" -> [name |-> "tname", style_name |-> "string", print_ |-> "bool", protected |-> "prot"]
    [] k \in {"TableRow", "TableColumn"} -> [style_name |-> "string", default_cell_style_name |-> "string", visibility |-> "vis"]
    [] k = "Cell" -> [style_name |-> "string", formula |-> "string", content_validation_name |-> "string", protected |-> "bool"]
    [] k = "DrawingPage" -> [name |-> "pname"]
    [] OTHER -> [x \in {} |-> ""]
Default(ty) == CASE ty \in {"bool", "prot"} -> "b:false" [] ty = "level" -> "i:1" [] ty = "vis" -> "s:visible" [] OTHER -> "none"
Defaults(k) == [n \in DOMAIN TypesOf(k) |-> Default(TypesOf(k)[n])]
Bool(b) == IF b THEN "b:true" ELSE "b:false"
AtLeast1(i) == IF i < 1 THEN 1 ELSE i

\* table names: tabs, line feeds of old and quotes become blanks, blanks around are dropped
Blank == {" ", "\\n", "\\x0b", "\\x0c"}
Soft(cs) == [i \in 1..Len(cs) |-> IF cs[i] \in {"\\t", "\\r", "'", "\""} THEN " " ELSE cs[i]]
RECURSIVE LTrim(_)
LTrim(cs) == IF cs # <<>> /\ cs[1] \in Blank THEN LTrim(Tail(cs)) ELSE cs
RECURSIVE RTrim(_)
RTrim(cs) == IF cs # <<>> /\ cs[Len(cs)] \in Blank THEN RTrim(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN "" ELSE cs[1] \o Cat(Tail(cs))
TableName(cs) == Cat(RTrim(LTrim(Soft(cs))))

\* the answer of the getter after assigning v, "!" if the value is refused
Assigned(ty, v) ==
  CASE ty = "string" -> IF v.t = "str" \/ v.t = "numstr" THEN "s:" \o v.s ELSE "!"
    [] ty \in {"bool", "prot"} -> Bool(v.b)
    [] ty \in {"level", "start"} -> IF v.t \in {"int", "float", "numstr", "bool"} THEN "i:" \o ToString(AtLeast1(v.i)) ELSE "!"
    [] ty = "number" -> "s:" \o v.s
    [] ty \in {"frame", "pname"} -> IF v.b THEN "s:" \o v.s ELSE "!"
    [] ty = "tname" -> IF v.t \in {"str", "numstr"} /\ TableName(v.cs) # "" THEN "s:" \o TableName(v.cs) ELSE "!"
    [] ty = "vis" -> IF v.s \in {"visible", "collapse", "filter"} /\ v.t = "str" THEN "s:" \o v.s ELSE "!"
\* the answer of the getter for an attribute of a loaded document
Loaded(ty, v) ==
  CASE ty \in {"bool", "prot"} -> Bool(v.s = "true")
    [] ty = "level" -> "i:" \o ToString(AtLeast1(v.i))
    [] ty = "start" -> "i:" \o ToString(v.i)
    [] OTHER -> "s:" \o v.s

AOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
AOk(s) == { AOut("ok", <<>>, s) }
ARej(s) == { AOut("rej", <<>>, s) }
Add(l, x) == IF LHas(l, x) THEN l ELSE Append(l, x)
Show(s) == IF s.k = "Hyperlink" THEN [s EXCEPT !.at["show"] = IF s.at["target_frame"] = "none" THEN @ ELSE IF s.at["target_frame"] = "s:_blank" THEN "s:new" ELSE "s:replace"] ELSE s
SetA(s, n, x) == LET t == [s EXCEPT !.at[n] = x, !.set = Add(@, n)] IN IF n = "target_frame" THEN Show(t) ELSE t
RECURSIVE SetAll(_, _, _)
SetAll(s, l, loaded) == IF l = <<>> THEN s
                ELSE LET n == l[1][1] v == l[1][2] ty == TypesOf(s.k)[n]
                     IN SetAll(IF loaded THEN [s EXCEPT !.at[n] = Loaded(ty, v), !.set = Add(@, n)] ELSE SetA(s, n, Assigned(ty, v)), Tail(l), loaded)
Fresh(k, kids, text) == [k |-> k, at |-> Defaults(k), set |-> <<>>, kids |-> kids, text |-> text, keyed |-> TRUE]
\* a new object has the attributes its class always sets
New(k, kids, text) ==
    LET s == Fresh(k, kids, text) IN
    CASE k = "Heading" -> [s EXCEPT !.set = <<"outline_level">>]
      [] k = "Hyperlink" -> [s EXCEPT !.at = [@ EXCEPT !["target_frame"] = "s:_blank", !["show"] = "s:new"], !.set = <<"target_frame">>]
      [] k = "Table" -> [s EXCEPT !.at["name"] = "s:NEWTABLE", !.set = <<"name">>]
      [] OTHER -> s

\* lists
Kind(x) == SubSeq(x, 1, 2)
IsHeader(x) == x[1] = "h"
IsItem(x) == x[1] = "i"
Headers(l) == { i \in 1..Len(l) : IsHeader(l[i]) }
WithHeader(l, h) == << <<"h", h>> >> \o SelectSeq(l, LAMBDA x : ~IsHeader(x))
ItemsOf(l) == SelectSeq(l, IsItem)
AttrsApply(s, op) ==
  CASE op.a = "new" -> AOk(SetAll(New(op.k, op.kids, op.text), op.set, FALSE))
    [] op.a = "load" -> AOk(SetAll(Fresh(op.k, op.kids, op.text), op.set, TRUE))
    [] op.a = "set" ->
         LET x == Assigned(TypesOf(s.k)[op.n], op.v) IN IF x = "!" THEN ARej(s) ELSE AOk(SetA(s, op.n, x))
    [] op.a = "del" -> IF LHas(s.set, op.n) THEN AOk([s EXCEPT !.at[op.n] = Default(TypesOf(s.k)[op.n]), !.set = LWithout(@, op.n)]) ELSE ARej(s)
    [] op.a = "reload" -> AOk(s)
    [] op.a = "content" ->           \* the paragraph or heading of a numbered paragraph, a new empty one if there is none
         LET ps == SelectSeq(s.kids, LAMBDA x : x[1] \in {"h", "p"})
         IN IF ps = <<>> THEN { AOut("ok", <<"p", "">>, [s EXCEPT !.kids = Append(@, <<"p", "">>)]) }
            ELSE LET hs == SelectSeq(ps, LAMBDA x : x[1] = "h") IN { AOut("ok", IF hs = <<>> THEN ps[1] ELSE hs[1], s) }
    [] op.a = "ezlist" -> AOk(SetAll(Fresh("List", (IF op.h = "" THEN <<>> ELSE << <<"h", op.h>> >>) \o [i \in 1..Len(op.items) |-> <<"i", op.items[i]>>], ""), op.set, FALSE))
    [] op.a = "header" ->            \* list.header = ListHeader(text)
         AOk([s EXCEPT !.kids = WithHeader(@, op.h)])
    [] op.a = "header_same" -> IF Headers(s.kids) = {} THEN ARej(s) ELSE AOk([s EXCEPT !.kids = WithHeader(@, s.kids[CHOOSE i \in Headers(s.kids) : TRUE][2])])
    [] op.a = "header_bad" -> ARej(s)      \* list.header = a list item or paragraph
    [] op.a = "get_header" -> { AOut("ok", IF Headers(s.kids) = {} THEN <<>> ELSE s.kids[CHOOSE i \in Headers(s.kids) : TRUE], s) }
    [] op.a = "items" -> { AOut("ok", ItemsOf(s.kids), s) }
    [] op.a = "append" -> AOk([s EXCEPT !.kids = Append(@, <<"i", op.t>>)])
    [] op.a = "insert" ->                  \* behind a header
         AOk([s EXCEPT !.kids = LInsert(@, op.p, <<"i", op.t>>)])
    [] op.a = "delete" -> IF LIn(op.i, Len(s.kids)) THEN AOk([s EXCEPT !.kids = LDelete(@, LPos(op.i, Len(@)) + 1)]) ELSE ARej(s)
    [] op.a = "steal" ->                   \* the header of another list becomes the header
         { AOut("ok", <<>>, [s EXCEPT !.kids = WithHeader(@, op.h)]) }
    [] OTHER -> {}
AttrsOk(s) == /\ \A n \in DOMAIN s.at : LHas(s.set, n) \/ s.at[n] = Default(TypesOf(s.k)[n]) \/ TypesOf(s.k)[n] = "auto"
              /\ (s.k = "List" => Cardinality(Headers(s.kids)) <= 1 /\ \A i \in Headers(s.kids) : \A j \in 1..(i - 1) : s.kids[j][1] = "c")
=============================================================================
