------------------------------ MODULE Address ------------------------------
(* Spreadsheet addresses.  An address is a sequence of characters: letters *)
(* read as a bijective base-26 number, then a row number >= 1 (leading     *)
(* zeros do not matter).  Everything else is not an address.               *)
(*  state: nr x nc table whose cell (i, j) holds "i.j" until it is written;*)
(*  w : the cells written so far, <<i, j, token>> in order of writing      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

AddressNull == [nr |-> 0, nc |-> 0, w |-> <<>>, rs |-> <<>>, cs |-> <<>>]

Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
LetterNo == [ c \in {Upper[i] : i \in 1..26} \cup {Lower[i] : i \in 1..26} |->
                CHOOSE i \in 1..26 : Upper[i] = c \/ Lower[i] = c ]
DigitNo == [ c \in {Digits[i] : i \in 1..10} |-> (CHOOSE i \in 1..10 : Digits[i] = c) - 1 ]
IsLetter(c) == c \in DOMAIN LetterNo
IsDigit(c) == c \in DOMAIN DigitNo

\* number of leading letters
RECURSIVE Lead(_, _)
Lead(w, k) == IF k < Len(w) /\ IsLetter(w[k + 1]) THEN Lead(w, k + 1) ELSE k
RECURSIVE Letters(_, _)
Letters(w, k) == IF k = 0 THEN 0 ELSE Letters(w, k - 1) * 26 + LetterNo[w[k]]
RECURSIVE Number(_, _, _)
Number(w, lo, k) == IF k < lo THEN 0 ELSE Number(w, lo, k - 1) * 10 + DigitNo[w[k]]

IsAddress(w) == LET k == Lead(w, 0)
                IN k >= 1 /\ k < Len(w) /\ (\A i \in (k + 1)..Len(w) : IsDigit(w[i])) /\ Number(w, k + 1, Len(w)) >= 1
Row(w) == Number(w, Lead(w, 0) + 1, Len(w)) - 1
Col(w) == Letters(w, Lead(w, 0)) - 1

Mod(a, b) == a - b * (a \div b)
\* the canonical address of (row, col)
RECURSIVE ColName(_)
ColName(c) == IF c < 26 THEN <<Upper[c + 1]>> ELSE ColName(c \div 26 - 1) \o <<Upper[Mod(c, 26) + 1]>>
RECURSIVE NumName(_)
NumName(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE NumName(n \div 10) \o <<Digits[Mod(n, 10) + 1]>>
Name(r, c) == ColName(c) \o NumName(r + 1)

\* the two readings are inverse to each other
RoundTrip(r, c) == IsAddress(Name(r, c)) /\ Row(Name(r, c)) = r /\ Col(Name(r, c)) = c
\* neighbouring columns: the next name is the successor of the name
RECURSIVE Succ(_)
Succ(w) == IF w = <<>> THEN <<"A">>
           ELSE LET n == LetterNo[w[Len(w)]]
                IN IF n < 26 THEN SubSeq(w, 1, Len(w) - 1) \o <<Upper[n + 1]>>
                   ELSE Succ(SubSeq(w, 1, Len(w) - 1)) \o <<"A">>
Successive(c) == ColName(c + 1) = Succ(ColName(c))

AOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
ARej(s) == { AOut("rej", <<>>, s) }
Inside(s, w) == Row(w) < s.nr /\ Col(w) < s.nc
S2(i) == ToString(i)
Written(s, i, j) == { k \in 1..Len(s.w) : s.w[k][1] = S2(i) /\ s.w[k][2] = S2(j) }
Content(s, i, j) == IF Written(s, i, j) = {} THEN S2(i) \o "." \o S2(j)
                    ELSE s.w[CHOOSE k \in Written(s, i, j) : \A l \in Written(s, i, j) : l <= k][3]
StyleAt(seq, i) == LET ks == { k \in 1..Len(seq) : seq[k][1] = S2(i) }
                   IN IF ks = {} THEN "" ELSE seq[CHOOSE k \in ks : \A l \in ks : l <= k][2]

AddressApply(s, op) ==
  CASE op.a = "table" -> { AOut("ok", <<>>, [nr |-> op.nr, nc |-> op.nc, w |-> <<>>, rs |-> <<>>, cs |-> <<>>]) }
    [] op.a = "parse" ->               \* the address parser itself
         IF IsAddress(op.w) THEN { AOut("ok", <<Row(op.w), Col(op.w)>>, s) } ELSE ARej(s)
    [] op.a = "get" ->                 \* table[w]
         IF IsAddress(op.w) /\ Inside(s, op.w) THEN { AOut("ok", <<Content(s, Row(op.w), Col(op.w))>>, s) } ELSE ARej(s)
    [] op.a = "set" ->                 \* table[w] = Cell(t)
         IF IsAddress(op.w) /\ Inside(s, op.w)
         THEN { AOut("ok", <<>>, [s EXCEPT !.w = Append(@, <<S2(Row(op.w)), S2(Col(op.w)), op.t>>)]) } ELSE ARej(s)
    [] op.a = "row" ->                 \* the content of row(w)
         IF IsAddress(op.w) /\ Row(op.w) < s.nr
         THEN { AOut("ok", [j \in 1..s.nc |-> Content(s, Row(op.w), j - 1)], s) } ELSE ARej(s)
    [] op.a = "column" ->
         IF IsAddress(op.w) /\ Col(op.w) < s.nc
         THEN { AOut("ok", [i \in 1..s.nr |-> Content(s, i - 1, Col(op.w))], s) } ELSE ARej(s)
    [] op.a = "row_info" ->            \* row_info(w).style_name = t
         IF IsAddress(op.w) /\ Row(op.w) < s.nr
         THEN { AOut("ok", <<>>, [s EXCEPT !.rs = Append(@, <<S2(Row(op.w)), op.t>>)]) } ELSE ARej(s)
    [] op.a = "column_info" ->
         IF IsAddress(op.w) /\ Col(op.w) < s.nc
         THEN { AOut("ok", <<>>, [s EXCEPT !.cs = Append(@, <<S2(Col(op.w)), op.t>>)]) } ELSE ARej(s)
    [] op.a = "span" ->                \* set_cell_span(w, (1, 2)), read, remove_cell_span(w)
         IF IsAddress(op.w) /\ Row(op.w) < s.nr /\ Col(op.w) + 1 < s.nc
         THEN { AOut("ok", <<S2(Row(op.w)), S2(Col(op.w))>>, s) } ELSE ARej(s)
    [] OTHER -> {}
=============================================================================
