---------------------------- MODULE DurationMC ----------------------------
EXTENDS Duration, Explore
CONSTANTS Chars, MaxLen, Prefixes, Days, Secs, Micros, Years
Words(p) == UNION { { p \o x : x \in [1..n -> Chars] } : n \in 0..MaxLen }
Texts == UNION { Words(p) : p \in Prefixes }
QuickPrefixes == { <<>>, <<"P">>, <<"P", "1">>, <<"P", "T">>, <<"P", "1", "D", "T", "1">>, <<"P", "T", "1", "M", "1">>, <<"P", "T", "2", ",">>, <<"2", "0", "1", "1", "-", "0">> }
Dates == { <<y, m, d>> : y \in Years, m \in 1..12, d \in {1, 9, 10, 28, 29, 30, 31} }
\* margin texts are left to the recorded histories: here every outcome is determined
ParseText == \E w \in Texts : Parse(w).ok # "odd" /\ Do([a |-> "parse", w |-> w])
Fractions == { <<"0">>, <<"9">>, <<"1", "2", "3", "4">>, <<"9", "9", "9", "9", "9", "9">>, <<"1", "2", "3", "4", "0", "0", "0", "0">>, <<"0", "0", "0", "0", "0", "1", "0">>,
               <<"9", "9", "9", "9", "9", "9", "0", "0", "0">>, <<"0", "0", "0", "0", "0", "0", "0">> }
ParseFine == \E d \in {"0", "7"}, x \in {"0", "9"}, f \in Fractions : Do([a |-> "parse", w |-> <<"P", d, "D", "T", "5", x, "S">>]) \/
                 Do([a |-> "parse", w |-> <<"P", d, "D", "T", "5", x, ",">> \o f \o <<"S">>])
ParseDate == \E v \in Dates, t \in { <<>>, <<0, 0, 0>>, <<23, 59, 59>>, <<24, 0, 0>>, <<12, 60, 0>>, <<12, 0, 60>> } :
                 Do([a |-> "parse", w |-> IF t = <<>> THEN DateText(v) ELSE TextOf("datetime", v \o t)])
FormatDate == \E v \in Dates : v[3] <= DaysIn(v[1], v[2]) /\ Do([a |-> "format", k |-> "date", v |-> v])
FormatTime == \E v \in Dates, h \in {0, 1, 9, 23}, x \in { <<0, 0>>, <<59, 59>>, <<5, 0>> } :
                 v[3] <= DaysIn(v[1], v[2]) /\ Do([a |-> "format", k |-> "datetime", v |-> v \o <<h>> \o x])
FormatDur == \E d \in Days, x \in Secs, u \in Micros : Do([a |-> "format", k |-> "duration", v |-> <<d, x, u>>])
Next == Shallow /\ (ParseText \/ ParseFine \/ ParseDate \/ FormatDate \/ FormatTime \/ FormatDur)
Spec == ExploreInit /\ [][Next]_evars
\* formatting and parsing are inverse to each other on the whole explored range
ASSUME \A v \in Dates : v[3] <= DaysIn(v[1], v[2]) => RoundTrip("date", v) /\ RoundTrip("datetime", v \o <<23, 0, 59>>)
ASSUME \A d \in Days, x \in Secs, u \in Micros : RoundTrip("duration", <<d, x, u>>)
=============================================================================
