------------------------------ MODULE StyleStore ------------------------------
(* The style containers of a document (C26).                                  *)
(* cs : container name -> list of styles <<tag, name, id>>; name "" : none    *)
(* "common" holds what inject_style adds.                                     *)
EXTENDS ListOps, TLC
StyleStoreNull == [cs |-> [c \in {"common"} |-> <<>>], attr |-> <<>>]
AOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
AOk(s) == { AOut("ok", <<>>, s) }
ARej(s) == { AOut("rej", <<>>, s) }
Named(l, n) == { i \in 1..Len(l) : l[i][2] = n /\ n # "" }
Without(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
Put(s, c, l) == [s EXCEPT !.cs = [@ EXCEPT ![c] = l]]
\* all ways to set style x under its name: replace one of that name, append if there is none
Sets(l, x) == IF Named(l, x[2]) = {} THEN { Append(l, x) } ELSE { [l EXCEPT ![i] = x] : i \in Named(l, x[2]) }
StyleStoreApply(s, op) ==
  CASE op.a = "open" -> AOk([cs |-> op.cs, attr |-> <<>>])
    [] op.a = "get" ->
         LET l == s.cs[op.c] ks == Named(l, op.n)
         IN IF ks = {} THEN ARej(s) ELSE { AOut("ok", l[i], s) : i \in ks }
    [] op.a = "attr" ->             \* an attribute of the style found: its name, family or none
         LET l == s.cs[op.c] ks == Named(l, op.n)
         IN IF ks = {} THEN ARej(s) ELSE { AOut("ok", <<op.n, "family-" \o l[i][3], "!none">>, s) : i \in ks }
    [] op.a = "set" -> { AOut("ok", <<>>, Put(s, op.c, l)) : l \in Sets(s.cs[op.c], <<op.t, op.n, op.i>>) }
    [] op.a = "inject" -> AOk(Put(s, "common", Append(s.cs["common"], <<op.t, op.n, op.i>>)))
    [] op.a = "injectbad" -> ARej(s)
    [] op.a = "move" ->             \* the style found in one container is set in another one: there is one style less or as many there
         LET l == s.cs[op.c] ks == Named(l, op.n)
         IN IF ks = {} THEN ARej(s)
            ELSE IF op.c = op.d THEN AOk(s)
            ELSE UNION { UNION { { AOut("ok", <<>>, Put(Put(s, op.d, m), op.c, Without(l, i))), AOut("ok", <<>>, Put(s, op.d, m)) }
                                 : m \in Sets(s.cs[op.d], l[i]) } : i \in ks }
    [] op.a = "rename" ->           \* the user gives the style found another name
         LET l == s.cs[op.c] ks == Named(l, op.n)
         IN IF ks = {} THEN ARej(s) ELSE { AOut("ok", <<>>, Put(s, op.c, [l EXCEPT ![i][2] = op.m])) : i \in ks }
    [] op.a = "reopen" -> AOk(s)
    [] OTHER -> {}
=============================================================================
