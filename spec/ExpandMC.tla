------------------------------ MODULE ExpandMC ------------------------------
EXTENDS Expand, Explore
CONSTANTS Reps,       \* repetition counts
          Lays        \* layouts of the stored table
Cell(n, t, v) == [n |-> n, t |-> t, v |-> v]
\* stored rows of one or two cells
Rows1 == { <<Cell(a, "a", "")>> : a \in Reps }
Rows2 == { <<Cell(a, "a", ""), Cell(b, "", v)>> : a \in Reps, b \in Reps, v \in {"", "c"} }
RowsC == Rows1 \cup Rows2
Cols == { <<>>, <<[n |-> 1, t |-> "k"]>>, <<[n |-> 2, t |-> "k"], [n |-> 1, t |-> ""]>>, <<[n |-> 1, t |-> ""], [n |-> 4, t |-> "l"]>> }
SmallCols == { <<>>, <<[n |-> 2, t |-> "k"]>> }
Strategies == { <<s, a, b>> : s \in {"all", "all_but_last"}, a \in {32}, b \in {32} }
              \cup { <<"all_less_maxcount", a, b>> : a \in {1, 2, 3}, b \in {1, 2, 4} }
Live == st.m # <<>>
Strategy == Len(hist) < 1 /\ \E c \in Strategies : Do([a |-> "strategy", st |-> c[1], mr |-> c[2], mc |-> c[3]])
StrategyOnly == Len(hist) < 1 /\ \E c \in {"all", "all_but_last", "all_less_maxcount"} : Do([a |-> "strategy_only", st |-> c])
Reset == Len(hist) = 1 /\ ~Live /\ Do([a |-> "reset"])
Load1 == \E r \in RowsC, n \in Reps, c \in Cols, l \in Lays :
           Do([a |-> "load", rows |-> <<[n |-> n, t |-> "r", c |-> r]>>, cols |-> c, lay |-> l])
Load2 == \E r \in Rows1, q \in RowsC, n \in Reps, k \in Reps, c \in SmallCols, l \in Lays :
           Do([a |-> "load", rows |-> <<[n |-> n, t |-> "r", c |-> r], [n |-> k, t |-> "", c |-> q]>>, cols |-> c, lay |-> l])
Load == ~Live /\ (Load1 \/ Load2)
Next == Shallow /\ (Strategy \/ StrategyOnly \/ Reset \/ Load)
Spec == ExploreInit /\ [][Next]_evars
Inv == Rectangle(st) /\ Infos(st)
=============================================================================
