---------------------------- MODULE TraceCheck ----------------------------
(* Generic trace checking frame: every recorded step of every recorded     *)
(* history of the real code must be an outcome the specification allows.   *)
(* The verdict is total: a step that is not allowed is reported with the   *)
(* names of the observation fields that differ from the closest allowed    *)
(* outcome, and checking goes on from what was observed.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Apply(_, _), St0

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, st
tvars == <<t, l, st>>

Fails(o, step) ==
    (IF o.r = step.r THEN {} ELSE {"r"})
    \cup (IF o.q = step.q THEN {} ELSE {"q"})
    \cup { f \in (DOMAIN step.s) \cap (DOMAIN o.s) : step.s[f] # o.s[f] }

Best(outs, step) ==
    CHOOSE o \in outs : \A p \in outs : Cardinality(Fails(o, step)) <= Cardinality(Fails(p, step))

\* the specification's next state, overridden by what was observed
Resync(s, step) ==
    [ f \in DOMAIN s |-> IF f \in DOMAIN step.s THEN step.s[f] ELSE s[f] ]

\* an observation the specification cannot even evaluate can only follow a
\* deviation: on request a history is followed no further than its first one
Stop == "STOP" \in DOMAIN IOEnv /\ IOEnv.STOP = "1"

TraceInit == t \in 1..Len(Traces) /\ l = 0 /\ st = St0

TraceNext ==
    /\ l < Len(Traces[t].steps)
    /\ t' = t
    /\ LET step == Traces[t].steps[l + 1]
           outs == Apply(st, step.o)
       IN IF outs = {}
          THEN /\ PrintT(ToJson([bad |-> <<t, l + 1>>, f |-> {"undefined"}, e |-> "none"]))
               /\ l' = IF Stop THEN Len(Traces[t].steps) ELSE l + 1
               /\ st' = st
          ELSE LET best == Best(outs, step)
                   f    == Fails(best, step)
               IN /\ (f # {} => PrintT(ToJson([bad |-> <<t, l + 1>>, f |-> f, e |-> best])))
                  /\ l' = IF Stop /\ f # {} THEN Len(Traces[t].steps) ELSE l + 1
                  /\ st' = Resync(best.s, step)

TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<t, l>>
=============================================================================
