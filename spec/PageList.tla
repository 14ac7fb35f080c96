------------------------------ MODULE PageList ------------------------------
(* The sheets / pages of a document body: an ordered list among other      *)
(* elements.                                                               *)
(*  names  : name of page number i (also of pages not in the document)     *)
(*  pages  : page numbers in document order                                *)
(*  others : all other children of the body, in order                      *)
(*  kind   : of the document (fixed); new pages need no name, sheets do    *)
(*  v      : views that disagree, misplaced pages (always empty)           *)
EXTENDS Integers, Sequences, FiniteSets

PageListNull == [kind |-> "", names |-> <<>>, pages |-> <<>>, others |-> <<>>, v |-> <<>>]
POut(r, q, s) == [r |-> r, q |-> q, s |-> s]
POk(s) == { POut("ok", <<>>, s) }
PRej(s) == { POut("rej", <<>>, s) }

PIn(i, n) == i >= -n /\ i < n
PPos(i, n) == IF i < 0 THEN i + n ELSE i
PInsert(seq, p, x) == SubSeq(seq, 1, p) \o <<x>> \o SubSeq(seq, p + 1, Len(seq))
Without(seq, x) == SelectSeq(seq, LAMBDA y : y # x)
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Where(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
\* first page with that name, 0 if there is none
Named(s, n) == LET is == { i \in 1..Len(s.pages) : s.names[s.pages[i]] = n }
               IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
\* 1-based position addressed by a key, 0 if there is none
Addressed(s, key) == CASE key.by = "n" -> Named(s, key.n)
                       [] key.by = "i" -> IF PIn(key.i, Len(s.pages)) THEN PPos(key.i, Len(s.pages)) + 1 ELSE 0
                       [] OTHER -> 0           \* keys of other types
\* list.insert semantics; inserting a page of the list moves it in front of the page now at that place
InsertPage(pages, i, x) ==
    LET n == Len(pages)
        p == IF i < 0 THEN IF i + n < 0 THEN 0 ELSE i + n ELSE IF i > n THEN n ELSE i
    IN IF Has(pages, x)
       THEN IF p < n /\ pages[p + 1] = x THEN pages
            ELSE LET rest == Without(pages, x)
                 IN IF p = n THEN Append(rest, x) ELSE PInsert(rest, Where(rest, pages[p + 1]) - 1, x)
       ELSE PInsert(pages, p, x)

PageListApply(s, op) ==
  CASE op.a = "open" -> POk([kind |-> op.kind, names |-> op.names, pages |-> [i \in 1..Len(op.names) |-> i], others |-> op.others, v |-> <<>>])
    [] op.a = "create" -> IF op.n = "" /\ s.kind = "ods" THEN PRej(s) ELSE POk([s EXCEPT !.names = Append(@, IF op.n = "" THEN "?None" ELSE op.n)])
    [] op.a = "append" -> POk([s EXCEPT !.pages = Append(Without(@, op.x), op.x)])
    [] op.a = "insert" -> POk([s EXCEPT !.pages = InsertPage(@, op.i, op.x)])
    [] op.a = "set" -> LET p == Addressed(s, op.key)
                       IN IF p = 0 THEN PRej(s)
                          ELSE IF s.pages[p] = op.x THEN POk(s)
                          ELSE POk([s EXCEPT !.pages = Without([Without(@, op.x) EXCEPT
                                        ![Where(Without(s.pages, op.x), s.pages[p])] = op.x], 0)])
    [] op.a = "delete" -> LET p == Addressed(s, op.key)
                          IN IF p = 0 THEN PRej(s) ELSE POk([s EXCEPT !.pages = Without(@, s.pages[p])])
    [] op.a = "get" -> LET p == Addressed(s, op.key)
                       IN IF p = 0 THEN PRej(s) ELSE { POut("ok", <<s.pages[p]>>, s) }
    [] op.a = "index" -> IF Has(s.pages, op.x) THEN { POut("ok", <<Where(s.pages, op.x) - 1>>, s) } ELSE PRej(s)
    [] op.a = "rename" -> IF op.n = "" THEN PRej(s) ELSE POk([s EXCEPT !.names[op.x] = op.n])
    [] op.a = "append_invalid" -> PRej(s)
    [] op.a = "insert_invalid" -> PRej(s)
    [] op.a = "set_invalid" -> PRej(s)
    [] op.a = "edit" -> POk(s)                 \* change the content of a page through one access
    [] op.a = "reload" -> POk(s)
    [] OTHER -> {}

NoTwice(s) == \A i, j \in 1..Len(s.pages) : i # j => s.pages[i] # s.pages[j]
=============================================================================
