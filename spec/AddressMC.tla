----------------------------- MODULE AddressMC -----------------------------
EXTENDS Address, Explore
CONSTANTS Alphabet, MaxLen, Ops, Check
Live == hist # <<>>
Words == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
ASSUME \A c \in 0..Check : RoundTrip(c, c) /\ Successive(c)
Start == ~Live /\ Do([a |-> "table", nr |-> 4, nc |-> 30])
Use == Live /\ \E a \in Ops, w \in Words : Do([a |-> a, w |-> w, t |-> "x"])
Next == Shallow /\ (Start \/ Use)
Spec == ExploreInit /\ [][Next]_evars
=============================================================================
