-------------------------------- MODULE Text --------------------------------
(* Text elements and the white space encoding (C17, C18).                  *)
(*  kind  : kind of the element under observation                          *)
(*  flat  : its content in document order: one token per literal character *)
(*          (escaped), "#tab", "#br", "#s<n>", "#spb", "#bm" for the empty *)
(*          inline elements, "#cm", "#pi" for comments and processing        *)
(*          instructions, "#fld" for fields (and unknown elements) showing "42", *)
(*          "<kind" and "#end" around nested elements                        *)
(*  plain : characters of its plain text; len: its text length             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

TextNull == [kind |-> "", flat |-> <<>>, plain |-> <<>>, len |-> 0]
XOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
XOk(s) == { XOut("ok", <<>>, s) }
XRej(s) == { XOut("rej", <<>>, s) }

Tab == "\\t"
Nl == "\\n"
Blank == " "

\* ---- white space encoding of one text
RECURSIVE EncFrom(_, _)
EncFrom(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE CASE t[i] = Tab -> <<"#tab">> \o EncFrom(t, i + 1)
           [] t[i] = Nl -> <<"#br">> \o EncFrom(t, i + 1)
           [] t[i] = Blank ->
                LET e == CHOOSE j \in i..Len(t) : /\ \A k \in i..j : t[k] = Blank
                                                  /\ (j < Len(t) => t[j + 1] # Blank)
                    n == e - i + 1
                IN <<Blank>> \o (IF n > 1 THEN <<"#s" \o ToString(n - 1)>> ELSE <<>>) \o EncFrom(t, e + 1)
           [] OTHER -> <<t[i]>> \o EncFrom(t, i + 1)
Enc(t) == EncFrom(t, 1)

\* ---- plain text of a token sequence
Blanks(n) == [i \in 1..n |-> Blank]
MaxS == 400
SToks == { "#s" \o ToString(n) : n \in 1..MaxS }
SMap == [k \in SToks |-> CHOOSE n \in 1..MaxS : k = "#s" \o ToString(n)]
SCount(k) == IF k \in SToks THEN SMap[k] ELSE 0
Block == {"<p", "<h"}
FieldText == <<"4", "2">>
TokText(k, first) == CASE k = "#tab" -> <<Tab>>
                       [] k = "#fld" -> FieldText
                       [] k = "#br" -> <<Nl>>
                       [] k \in {"#spb", "#bm", "#cm", "#pi", "#end", "<Span", "<A"} -> <<>>
                       [] k \in Block -> IF first THEN <<>> ELSE <<Nl>>
                       [] SCount(k) > 0 -> Blanks(SCount(k))
                       [] OTHER -> <<k>>
RECURSIVE PlainFrom(_, _)
PlainFrom(f, i) == IF i > Len(f) THEN <<>> ELSE TokText(f[i], \A j \in 1..(i - 1) : f[j] \notin Block) \o PlainFrom(f, i + 1)
Plain(f) == PlainFrom(f, 1)

IsOpen(k) == k \in {"<Span", "<A"} \cup Block
IsElement(k) == IsOpen(k) \/ k \in {"#tab", "#br", "#spb", "#bm", "#cm", "#pi", "#fld"} \/ SCount(k) > 0
\* nesting depth behind token i
RECURSIVE Depth(_, _)
Depth(f, i) == IF i = 0 THEN 0 ELSE Depth(f, i - 1) + (IF IsOpen(f[i]) THEN 1 ELSE IF f[i] = "#end" THEN -1 ELSE 0)
\* places of the first tokens of the children
Kids(f) == LET ps == { i \in 1..Len(f) : IsElement(f[i]) /\ Depth(f, i - 1) = 0 }
           IN SelectSeq([i \in 1..Len(f) |-> i], LAMBDA i : i \in ps)
\* last token of the child that begins at i
EndOf(f, i) == IF IsOpen(f[i]) THEN CHOOSE j \in i..Len(f) : f[j] = "#end" /\ Depth(f, j) = 0 /\ \A k \in i..(j - 1) : Depth(f, k) > 0
               ELSE i
InsertAt(f, p, x) == SubSeq(f, 1, p) \o x \o SubSeq(f, p + 1, Len(f))
\* number of closing tokens at the end
RECURSIVE Closing(_)
Closing(f) == IF f = <<>> \/ f[Len(f)] # "#end" THEN 0 ELSE 1 + Closing(SubSeq(f, 1, Len(f) - 1))

Item(k) == k \in {"ListItem", "ListHeader"}
Holder(k) == IF k = "Heading" THEN "<h" ELSE "<p"
\* tokens of a new inline element
Inline(e, t, n) == CASE e \in {"Span", "A"} -> <<"<" \o e>> \o Enc(t) \o <<"#end">>
                     [] e \in {"p", "h"} -> <<"<" \o e>> \o Enc(t) \o <<"#end">>
                     [] e = "s" -> IF n > 1 THEN <<"#s" \o ToString(n)>> ELSE <<"#s1">>
                     [] OTHER -> <<"#" \o e>>
InlineText(e, t, n) == CASE e \in {"Span", "A", "p", "h"} -> t [] e = "tab" -> <<Tab>> [] e = "br" -> <<Nl>> [] e = "fld" -> FieldText
                         [] e = "s" -> Blanks(IF n > 1 THEN n ELSE 1) [] OTHER -> <<>>

\* append at the end: the plain text grows by exactly the text given
AppendAt(s, d, toks, text) ==
    LET f == InsertAt(s.flat, Len(s.flat) - d, toks)
        p == s.plain \o text
    IN [s EXCEPT !.flat = f, !.plain = p, !.len = Len(p)]
\* anywhere else: the plain text is what the content says in document order
PutAt(s, p, toks) ==
    LET f == InsertAt(s.flat, p, toks)
        t == Plain(f)
    IN [s EXCEPT !.flat = f, !.plain = t, !.len = Len(t)]

Separator(s) == IF Item(s.kind) /\ \E i \in 1..Len(s.flat) : s.flat[i] \in Block THEN <<Nl>> ELSE <<>>

TextApply(s, op) ==
  CASE op.a = "create" ->
         LET f == IF Item(op.kind) THEN (IF op.t = <<>> THEN <<>> ELSE <<"<p">> \o Enc(op.t) \o <<"#end">>) ELSE Enc(op.t)
         IN XOk([kind |-> op.kind, flat |-> f, plain |-> op.t, len |-> Len(op.t)])
    \* append_text on the element (d = 0) or on its last descendants
    [] op.a = "append_text" -> IF op.d <= Closing(s.flat) THEN XOk(AppendAt(s, op.d, Enc(op.t), op.t)) ELSE {}
    \* append a new element
    [] op.a = "append" -> IF op.d <= Closing(s.flat)
                          THEN XOk(AppendAt(s, op.d, Inline(op.e, op.t, op.n), (IF op.d = 0 /\ op.e \in {"p", "h"} THEN Separator(s) ELSE <<>>) \o InlineText(op.e, op.t, op.n)))
                          ELSE {}
    \* insert a new element before the i-th child
    [] op.a = "insert" -> LET ks == Kids(s.flat)
                          IN IF op.i < Len(ks) THEN XOk(PutAt(s, ks[op.i + 1] - 1, Inline(op.e, op.t, op.n))) ELSE {}
    \* append_text on the i-th child
    [] op.a = "child_text" -> LET ks == Kids(s.flat)
                              IN IF op.i < Len(ks) /\ IsOpen(s.flat[ks[op.i + 1]])
                                 THEN XOk(PutAt(s, EndOf(s.flat, ks[op.i + 1]) - 1, Enc(op.t))) ELSE {}
    [] op.a = "encode" -> { XOut("ok", <<Enc(op.t), op.t>>, s) }
    [] op.a = "spaces" -> { XOut("ok", <<IF op.n > 1 THEN op.n ELSE 1, IF op.m > 1 THEN op.m ELSE 1>>, s) }
    [] op.a = "reload" -> XOk(s)
    [] OTHER -> {}

\* what the encoding promises: no tab, line feed or two adjacent spaces as characters from one text
Canonical(f) == \A i \in 1..Len(f) : f[i] # Tab /\ f[i] # Nl /\ ~(i > 1 /\ f[i] = Blank /\ f[i - 1] = Blank)
TextInv(s) == s.plain = Plain(s.flat) /\ s.len = Len(s.plain)
EncInv(t) == Canonical(Enc(t)) /\ Plain(Enc(t)) = t
=============================================================================
