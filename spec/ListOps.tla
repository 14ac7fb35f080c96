------------------------------- MODULE ListOps -------------------------------
(* Python list rules, shared by the specifications of ordered children.     *)
EXTENDS Integers, Sequences, FiniteSets
LIn(i, n) == i >= -n /\ i < n
LPos(i, n) == IF i < 0 THEN i + n ELSE i
LInsert(seq, p, x) == SubSeq(seq, 1, p) \o <<x>> \o SubSeq(seq, p + 1, Len(seq))
LDelete(seq, p) == SubSeq(seq, 1, p - 1) \o SubSeq(seq, p + 1, Len(seq))      \* p is 1-based
LWithout(seq, x) == SelectSeq(seq, LAMBDA y : y # x)
LHas(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
LWhere(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
LRange(seq) == { seq[i] : i \in 1..Len(seq) }
\* places (0..n) where an insert at index i may put a new element; an index below -n is outside the list:
\* either end is allowed
LPlaces(i, n) == IF i < -n THEN {0, n} ELSE IF i < 0 THEN {i + n} ELSE IF i > n THEN {n} ELSE {i}
\* put x (a member or not) in front of the element at place p; p = n: to the end
LMove(seq, p, x) ==
    IF ~LHas(seq, x) THEN LInsert(seq, p, x)
    ELSE IF p < Len(seq) /\ seq[p + 1] = x THEN seq
    ELSE LET rest == LWithout(seq, x)
         IN IF p = Len(seq) THEN Append(rest, x) ELSE LInsert(rest, LWhere(rest, seq[p + 1]) - 1, x)
\* x takes the place of the element at place p (1-based); x may be a member
LReplace(seq, p, x) ==
    IF seq[p] = x THEN seq
    ELSE LET old == seq[p]
             rest == LWithout(seq, x)
         IN [rest EXCEPT ![LWhere(rest, old)] = x]
=============================================================================
