----------------------------- MODULE CellValue -----------------------------
(* The typed value of one table cell.                                      *)
(*  typ  : value type, "" when none                                        *)
(*  val  : "none", "str:<text>", "float:<number>", "bool:true|false"       *)
(*  cur  : currency, "" when none                                          *)
(*  txt  : the shown text (plaintext / display_form)                       *)
(*  con  : the content, items <<kind, text, style, styles of the texts      *)
(*         appended to it>>; kind "p" paragraph, "h" heading, "x" others   *)
(*  sty, frm, prot, cv : style name, formula, protection, validation name  *)
(*  left : value attributes that do not belong to the type (always "")     *)
(* A value given by the caller is described by its kind and conversions:   *)
(*  v.k kind (str int float bool none para heading obj), v.s text form,    *)
(*  v.n number form ("" if it is not a number), v.b truth value, v.t the   *)
(*  plain text of a paragraph.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CellValueNull == [typ |-> "", val |-> "none", cur |-> "", txt |-> "", con |-> <<>>, sty |-> "", frm |-> "", prot |-> "false", cv |-> "", left |-> ""]

ValueTypes == {"float", "percentage", "currency", "date", "time", "boolean", "string"}
Numeric == {"float", "percentage", "currency"}

VOut(r, s) == [r |-> r, q |-> <<>>, s |-> s]
VOk(s) == { VOut("ok", s) }
VRej(s) == { VOut("rej", s) }

\* the text shown by a content: its paragraphs and headings
TextItem(i) == i[1] \in {"p", "h"}
RECURSIVE Joined(_)
Joined(c) == IF c = <<>> THEN ""
             ELSE LET r == SelectSeq(Tail(c), TextItem)
                  IN IF ~TextItem(Head(c)) THEN Joined(Tail(c)) ELSE Head(c)[2] \o (IF r = <<>> THEN "" ELSE "\\n" \o Joined(r))
Para(t, y) == <<"p", t, y, "">>
With(s, c) == [s EXCEPT !.con = c, !.txt = Joined(c), !.val = IF s.typ = "string" THEN "str:" \o Joined(c) ELSE @]
\* what is no text may stay or go when the content is replaced
Others(c) == LET x == SelectSeq(c, LAMBDA i : ~TextItem(i)) IN {<<>>, x}
\* text is appended to the last paragraph, or as a new one when there is none
Appended(c, t, y) ==
    LET n == Len(c)
        new == Append(c, Para(t, y))
        onto(i) == [c EXCEPT ![i][2] = @ \o t, ![i][4] = @ \o y]
    IN IF n > 0 /\ TextItem(c[n]) THEN { onto(n) }
       ELSE {new} \cup { onto(i) : i \in { i \in 1..n : TextItem(c[i]) /\ \A j \in (i + 1)..n : ~TextItem(c[j]) } }
\* a new display form takes the place of the text there was, or of its first paragraph
Replaced(c, t) ==
    LET ps == { i \in 1..Len(c) : c[i][1] = "p" }
        first == CHOOSE i \in ps : \A j \in ps : i <= j
        all == { Append(x, Para(t, "")) : x \in Others(c) }
    IN IF SelectSeq(c, TextItem) = <<>> THEN { Append(c, Para(t, "")) }
       ELSE all \cup (IF ps = {} THEN { Append(c, Para(t, "")) } ELSE { [c EXCEPT ![first] = Para(t, "")] })

AutoType(v) == CASE v.k = "bool" -> "boolean" [] v.k \in {"int", "float"} -> "float" [] OTHER -> "string"

\* type a set_value call asks for: a currency name makes it a currency
AskedType(v, vt, cur) == IF cur # "#none" THEN "currency" ELSE IF vt # "#none" THEN vt ELSE AutoType(v)

\* conversions the specification defines; other combinations are outside the documented domain
Defined(v, t) == CASE v.k \in {"para", "heading"} -> TRUE       \* always the text of the cell
                   [] t = "string" -> TRUE
                   [] t \in Numeric -> v.k # "bool" /\ (v.n # "" \/ v.s = "")
                   [] t = "boolean" -> v.k # "str" \/ v.s = ""
                   [] t \in {"date", "time"} -> v.k = "str"
                   [] OTHER -> TRUE
Converted(v, t) == CASE v.k \in {"para", "heading"} -> "str:" \o v.t
                     [] t = "string" -> "str:" \o v.s
                     [] t \in Numeric -> "float:" \o v.n
                     [] t = "boolean" -> "bool:" \o v.b
                     [] OTHER -> "str:" \o v.s

\* a currency cell that gets a new amount without a currency may keep or lose its currency
Currencies(s, t, cur) == IF t # "currency" THEN {""}
                         ELSE IF cur \in {"#none", ""} THEN {"", IF s.typ = "currency" THEN s.cur ELSE ""} ELSE {cur}

SetValue(s, v, vt, cur) ==
    IF v.k \in {"none", "obj"} THEN VRej(s)
    ELSE LET t == AskedType(v, vt, cur)
         IN IF t \notin ValueTypes THEN VRej(s)
            ELSE IF v.k \in {"para", "heading"}
            THEN (IF t = "string" THEN {} ELSE VRej(s))         \* margin: other types may be refused
                 \cup { VOut("ok", With([s EXCEPT !.typ = "string", !.cur = ""], Append(x, <<IF v.k = "para" THEN "p" ELSE "h", v.t, "", "">>))) : x \in Others(s.con) }
            ELSE IF v.k = "str" /\ v.s = "" /\ t \notin {"string", "boolean"} THEN VRej(s)
            ELSE IF ~Defined(v, t) THEN {}
            ELSE { VOut("ok", [s EXCEPT !.typ = t, !.val = Converted(v, t), !.cur = c, !.txt = IF t = "string" THEN v.s ELSE "",
                                        !.con = IF t = "string" THEN Append(x, Para(v.s, "")) ELSE x])
                   : c \in Currencies(s, t, cur), x \in Others(s.con) }

CellValueApply(s, op) ==
  CASE op.a = "create" ->              \* Cell(value, value_type, currency, style_name)
         LET fresh == [CellValueNull EXCEPT !.sty = op.sty]
         IN IF op.v.k = "none"
            THEN IF op.vt = "#none" THEN VOk(fresh) ELSE IF op.vt \notin ValueTypes THEN VRej(s)
                     ELSE VOk([fresh EXCEPT !.typ = op.vt, !.val = IF op.vt = "string" THEN "str:" ELSE @])
            ELSE { IF o.r = "ok" THEN o ELSE VOut(o.r, s) : o \in SetValue(fresh, op.v, op.vt, op.cur) }
    [] op.a = "load" ->                \* a cell as other programs write it
         VOk(With([CellValueNull EXCEPT !.typ = op.typ, !.val = op.val, !.cur = op.cur, !.sty = op.sty], op.con))
    [] op.a = "set_value" -> SetValue(s, op.v, op.vt, op.cur)
    [] op.a = "append_text" ->
         IF s.typ = "string" THEN { VOut("ok", With(s, c)) : c \in Appended(s.con, op.t, op.y) } ELSE VRej(s)
    [] op.a = "display_form" ->
         IF s.typ \in {"", "string"} THEN VRej(s) ELSE { VOut("ok", With(s, c)) : c \in Replaced(s.con, op.t) }
    [] op.a = "style_name" -> VOk([s EXCEPT !.sty = op.t])
    [] op.a = "formula" -> VOk([s EXCEPT !.frm = op.t])
    [] op.a = "protected" -> VOk([s EXCEPT !.prot = op.t])
    [] op.a = "validation" -> VOk([s EXCEPT !.cv = op.t])
    [] op.a = "reload" -> VOk(s)
    [] OTHER -> {}

TypeOK(s) == /\ s.typ \in ValueTypes \cup {""}
             /\ s.txt = Joined(s.con)
             /\ (s.typ = "" => s.val = "none" /\ s.txt = "")
             /\ (s.cur # "" => s.typ = "currency")
             /\ (s.typ = "string" => s.val = "str:" \o s.txt)
=============================================================================
