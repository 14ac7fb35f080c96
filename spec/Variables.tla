------------------------------ MODULE Variables ------------------------------
(* Simple variables and user fields (C22).                                   *)
(*  decl : <<kind, name, type, value>> of each declaration (variables first)  *)
(*  inst : <<kind, name, type, value>> of each occurrence, document order     *)
(*  v    : views that disagree (always empty)                                 *)
EXTENDS Integers, Sequences, FiniteSets
VariablesNull == [decl |-> <<>>, inst |-> <<>>, v |-> <<>>]
VOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
VOk(s) == { VOut("ok", <<>>, s) }
VRej(s) == { VOut("rej", <<>>, s) }
Is(e, k, n) == e[1] = k /\ e[2] = n
Declared(s, k, n) == \E i \in 1..Len(s.decl) : Is(s.decl[i], k, n)
D(s, k, n) == s.decl[CHOOSE i \in 1..Len(s.decl) : Is(s.decl[i], k, n)]
SetAll(seq, k, n, t, x) == [i \in 1..Len(seq) |-> IF Is(seq[i], k, n) THEN <<k, n, t, x>> ELSE seq[i]]
Occ(s, k, n) == SelectSeq(s.inst, LAMBDA e : Is(e, k, n))

VariablesApply(s, op) ==
  CASE op.a = "open" -> VOk([decl |-> op.decl, inst |-> op.inst, v |-> <<>>])
    [] op.a = "assign" -> IF Declared(s, op.k, op.n)
                          THEN VOk([s EXCEPT !.decl = SetAll(@, op.k, op.n, op.t, op.x), !.inst = SetAll(@, op.k, op.n, op.t, op.x)])
                          ELSE VRej(s)
    [] op.a = "get" -> IF Declared(s, op.k, op.n) THEN { VOut("ok", <<D(s, op.k, op.n)[3], D(s, op.k, op.n)[4], Len(Occ(s, op.k, op.n))>>, s) } ELSE VRej(s)
    [] op.a = "has" -> { VOut("ok", <<Declared(s, op.k, op.n)>>, s) }
    \* another occurrence, with some content of its own, at the end of the document
    \* (until the next assignment a simple variable may show the content of any of its occurrences)
    [] op.a = "occur" -> { VOut("ok", <<>>, [s EXCEPT !.inst = Append(@, <<op.k, op.n, op.t, op.x>>), !.decl = d]) :
                           d \in {s.decl} \cup (IF op.k = "var" /\ Declared(s, "var", op.n)
                                               THEN { [i \in 1..Len(s.decl) |-> IF Is(s.decl[i], "var", op.n)
                                                                                THEN <<"var", op.n, s.decl[i][3], op.x>> ELSE s.decl[i]] } ELSE {}) }
    [] op.a = "reload" -> VOk(s)
    [] OTHER -> {}

\* after an assignment all occurrences agree with the declaration
Agree(s, k, n) == \A i \in 1..Len(s.inst) : Is(s.inst[i], k, n) => s.inst[i] = D(s, k, n)
=============================================================================
