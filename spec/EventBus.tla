------------------------------ MODULE EventBus ------------------------------
(* Events and listeners (C23).                                               *)
(*  ls   : listeners: handled events ev, root 0 (belongs to none) or 1..,     *)
(*         alive, and what their handler does: react = <<kind, target>>       *)
(*  subs : living subscribers per event, ascending                           *)
EXTENDS ListOps, SequencesExt, TLC
Events == {"e1", "e2", "e3"}
NoSubs == [e1 |-> <<>>, e2 |-> <<>>, e3 |-> <<>>]
EventBusNull == [ls |-> <<>>, subs |-> NoSubs]
EOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
EOk(s) == { EOut("ok", <<>>, s) }
ERej(s) == { EOut("rej", <<>>, s) }
Asc(S) == SetToSortSeq(S, <)
Sub(s, e, x) == [s EXCEPT !.subs[e] = Asc(LRange(@) \cup {x})]
Unsub(s, e, x) == [s EXCEPT !.subs[e] = Asc(LRange(@) \ {x})]
Destroy(s, x) == [s EXCEPT !.ls[x].alive = FALSE, !.subs = [e \in Events |-> Asc(LRange(s.subs[e]) \ {x})]]
Handles(s, x, e) == LHas(s.ls[x].ev, e)

\* listeners a broadcast is addressed to (root 0: everybody)
Addressed(s, e, root) == { x \in LRange(s.subs[e]) : root = 0 \/ s.ls[x].root = root }
\* those whose handler raises an error
Booms(s, e, root) == { x \in Addressed(s, e, root) : s.ls[x].react[1] = "boom" }
\* effect of the handler of x
React(s, e, x) == LET k == s.ls[x].react
                  IN CASE k[1] = "unsub" -> Unsub(s, e, k[2])
                       [] k[1] = "sub" -> Sub(s, e, k[2])
                       [] k[1] = "kill" -> Destroy(s, k[2])
                       [] OTHER -> s
RECURSIVE ReactAll(_, _, _)
ReactAll(s, e, X) == IF X = {} THEN s ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z IN ReactAll(React(s, e, x), e, X \ {x})
Targets(s, X, kinds) == { s.ls[x].react[2] : x \in { y \in X : s.ls[y].react[1] \in kinds } }
\* those touched by a handler of somebody else during the broadcast may or may not be called; everybody else is called once
Receivers(s, e, root) ==
    LET all == Addressed(s, e, root)
        lost == { x \in all : \E y \in all \ {x} : s.ls[y].react[1] \in {"unsub", "kill"} /\ s.ls[y].react[2] = x }
        new == { x \in Targets(s, all, {"sub"}) \ all : root = 0 \/ s.ls[x].root = root }
    IN { (all \ lost) \cup m : m \in SUBSET (lost \cup new) }

EventBusApply(s, op) ==
  CASE op.a = "setup" -> EOk([ls |-> op.ls, subs |-> NoSubs])
    [] op.a = "subscribe" -> IF ~s.ls[op.x].alive THEN {} ELSE IF Handles(s, op.x, op.e) THEN EOk(Sub(s, op.e, op.x)) ELSE ERej(s)
    \* many at once, all of them alive and able to handle e
    [] op.a = "fill" -> IF \A i \in 1..Len(op.xs) : s.ls[op.xs[i]].alive /\ Handles(s, op.xs[i], op.e)
                        THEN EOk([s EXCEPT !.subs[op.e] = Asc(LRange(@) \cup LRange(op.xs))]) ELSE {}
    [] op.a = "unsubscribe" -> IF ~s.ls[op.x].alive THEN {} ELSE IF LHas(s.subs[op.e], op.x) THEN EOk(Unsub(s, op.e, op.x)) ELSE ERej(s)
    [] op.a = "destroy" -> IF s.ls[op.x].alive THEN EOk(Destroy(s, op.x)) ELSE {}
    [] op.a = "move" -> IF s.ls[op.x].alive /\ s.ls[op.x].root # 0 THEN EOk([s EXCEPT !.ls[op.x].root = op.root]) ELSE {}
    \* a handler that fails: the caller is told, whoever else was called by then (who may do nothing but listen)
    [] op.a = "broadcast" /\ Booms(s, op.e, op.root) # {} ->
         IF \A x \in Addressed(s, op.e, op.root) : s.ls[x].react[1] \in {"none", "boom"} THEN ERej(s) ELSE {}
    [] op.a = "broadcast" -> { EOut("ok", Asc(X), ReactAll(s, op.e, X)) : X \in Receivers(s, op.e, op.root) }
    [] OTHER -> {}

SubsInv(s) == \A e \in Events : \A i \in 1..Len(s.subs[e]) : s.ls[s.subs[e][i]].alive /\ Handles(s, s.subs[e][i], e)
=============================================================================
