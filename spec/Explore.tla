------------------------------ MODULE Explore ------------------------------
(* Generic exploration frame.                                              *)
(*                                                                         *)
(* A domain module gives a functional core                                 *)
(*     Apply(st, op)  =  the set of outcomes [r, q, s] the specification   *)
(*                       allows for operation op in state st               *)
(* (r: result class, q: answer of a query, s: next state) and names one    *)
(* TLA+ action per public operation, each of the form  \E args : Do(op).   *)
(* TLC explores the domain's Next; the action constraint Emit prints each  *)
(* transition it takes as one JSON line - the shortest history found,      *)
(* the operation, the outcome and the next state - and the replay harness  *)
(* executes exactly these on the real code.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Apply(_, _),     \* the domain's transition relation
          St0,             \* the state before anything was created
          MaxDepth,        \* bound on the history length
          EmitOn           \* print transitions for replay

VARIABLES st, hist

evars == <<st, hist>>

Do(op) == \E o \in Apply(st, op) :
             /\ st' = o.s
             /\ hist' = Append(hist, [o |-> op, r |-> o.r, q |-> o.q])

ExploreInit == st = St0 /\ hist = <<>>

Shallow == Len(hist) < MaxDepth
DepthBound == Len(hist) <= MaxDepth

View == st

Emit == EmitOn => PrintT(ToJson([h |-> hist', p |-> st, s |-> st']))

LastOp  == hist[Len(hist)]
\* A refused operation leaves the state as it was.
RejectedKeeps == [][ (Len(hist') > 0 /\ hist'[Len(hist')].r = "rej") => st' = st ]_evars
=============================================================================
