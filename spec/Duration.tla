------------------------------ MODULE Duration ------------------------------
(* Texts of dates, points of time and durations (C25).                      *)
(* A text is a sequence of characters. Values:                              *)
(*   date <<y, m, d>>   datetime <<y, m, d, h, mi, s>>                      *)
(*   duration <<days, seconds 0..86399, microseconds 0..999999>>            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
DurationNull == [n |-> 0]
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
DigitNo == [ c \in {Digits[i] : i \in 1..10} |-> (CHOOSE i \in 1..10 : Digits[i] = c) - 1 ]
IsDigit(c) == c \in DOMAIN DigitNo
Mod(a, b) == a - b * (a \div b)
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE NumEnd(_, _)          \* first position from i on that holds no digit
NumEnd(w, i) == IF i <= Len(w) /\ IsDigit(w[i]) THEN NumEnd(w, i + 1) ELSE i
RECURSIVE Number(_, _, _)       \* of w[lo..hi]
Number(w, lo, hi) == IF hi < lo THEN 0 ELSE Number(w, lo, hi - 1) * 10 + DigitNo[w[hi]]

\* formatting
RECURSIVE NumText(_)
NumText(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE NumText(n \div 10) \o <<Digits[Mod(n, 10) + 1]>>
RECURSIVE Padded(_, _)
Padded(n, k) == IF k = 0 THEN <<>> ELSE Padded(n \div 10, k - 1) \o <<Digits[Mod(n, 10) + 1]>>
DateText(v) == Padded(v[1], 4) \o <<"-">> \o Padded(v[2], 2) \o <<"-">> \o Padded(v[3], 2)
TimeText(h, mi, s) == Padded(h, 2) \o <<":">> \o Padded(mi, 2) \o <<":">> \o Padded(s, 2)
DurText(v) == <<"P">> \o (IF v[1] = 0 THEN <<>> ELSE NumText(v[1]) \o <<"D">>)
              \o <<"T">> \o Padded(v[2] \div 3600, 2) \o <<"H">> \o Padded(Mod(v[2], 3600) \div 60, 2) \o <<"M">>
              \o Padded(Mod(v[2], 60), 2)
              \o (IF v[3] = 0 THEN <<>> ELSE <<",">> \o Padded(v[3] \div 100, 4)) \o <<"S">>
TextOf(k, v) == CASE k = "date" -> DateText(v)
                  [] k = "datetime" -> DateText(v) \o <<"T">> \o TimeText(v[4], v[5], v[6])
                  [] k = "duration" -> DurText(v)
\* what is left of the value when it went through its text
Shown(k, v) == IF k = "duration" THEN <<v[1], v[2], (v[3] \div 100) * 100>> ELSE v

\* parsing
\* outcomes: "no" (not such a text), "odd" (margin: the text may be refused or read), "yes"
No == [ok |-> "no", k |-> "", v |-> <<>>]
Leap(y) == (Mod(y, 4) = 0 /\ Mod(y, 100) # 0) \/ Mod(y, 400) = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* split at separators: the list of number fields <<value, digits>>, or <<>> when the shape is wrong
RECURSIVE Fields(_, _, _)
Fields(w, i, seps) ==
    LET e == NumEnd(w, i) IN
    IF e = i THEN <<>>
    ELSE IF seps = <<>> THEN (IF e = Len(w) + 1 THEN << <<Number(w, i, e - 1), e - i>> >> ELSE <<>>)
    ELSE IF e > Len(w) \/ w[e] # Head(seps) THEN <<>>
    ELSE LET r == Fields(w, e + 1, Tail(seps)) IN IF r = <<>> THEN <<>> ELSE << <<Number(w, i, e - 1), e - i>> >> \o r
Short(f) == \A i \in 1..Len(f) : f[i][2] <= (IF i = 1 THEN 4 ELSE 2)
DateOk(f) == f[1][2] = 4 /\ f[1][1] >= 1 /\ f[2][1] \in 1..12 /\ f[3][1] \in 1..DaysIn(f[1][1], f[2][1])
Exact(f) == \A i \in 2..Len(f) : f[i][2] = 2
DateParse(w) ==
    LET f == Fields(w, 1, <<"-", "-">>) IN
    IF f = <<>> THEN No ELSE IF ~Short(f) THEN No ELSE IF ~DateOk(f) THEN No
    ELSE [ok |-> IF Exact(f) THEN "yes" ELSE "odd", k |-> "date", v |-> <<f[1][1], f[2][1], f[3][1]>>]
DateTimeParse(w) ==
    LET f == Fields(w, 1, <<"-", "-", "T", ":", ":">>) IN
    IF f = <<>> THEN No ELSE IF ~Short(f) THEN No
    ELSE IF ~DateOk(f) \/ f[4][1] > 23 \/ f[5][1] > 59 \/ f[6][1] > 59 THEN No
    ELSE [ok |-> IF Exact(f) THEN "yes" ELSE "odd", k |-> "datetime", v |-> <<f[1][1], f[2][1], f[3][1], f[4][1], f[5][1], f[6][1]>>]

\* u: number of units passed (Y M D | H M S), t: behind the T, n: fields seen behind the T, any: fields seen
Unit == <<"Y", "M", "D", "H", "M", "S">>
DurNo == [ok |-> FALSE, p |-> <<0, 0, 0, 0, 0, 0>>, us |-> 0, bare |-> FALSE]
RECURSIVE Scan(_, _, _, _, _, _, _, _)
Scan(w, i, u, t, n, any, p, us) ==
    IF i > Len(w) THEN [ok |-> TRUE, p |-> p, us |-> us, bare |-> ~any \/ (t /\ n = 0)]
    ELSE IF w[i] = "T" THEN (IF t THEN DurNo ELSE Scan(w, i + 1, 3, TRUE, 0, any, p, us))
    ELSE LET e == NumEnd(w, i)
             val == Number(w, i, e - 1)
         IN IF e = i \/ e > Len(w) THEN DurNo
            ELSE IF w[e] = ","
                 THEN LET g == NumEnd(w, e + 1)
                      IN IF t /\ g > e + 1 /\ g = Len(w) /\ w[g] = "S" /\ u < 6
                         THEN Scan(w, g + 1, 6, t, n + 1, TRUE, [p EXCEPT ![6] = val],
                                   Number(w \o <<"0", "0", "0", "0", "0", "0">>, e + 1, Min(g - 1, e + 6))
                                   * (IF g - e - 1 >= 6 THEN 1 ELSE CASE g - e - 1 = 1 -> 100000 [] g - e - 1 = 2 -> 10000
                                        [] g - e - 1 = 3 -> 1000 [] g - e - 1 = 4 -> 100 [] g - e - 1 = 5 -> 10))
                         ELSE DurNo
                 ELSE LET ks == { k \in (u + 1)..6 : Unit[k] = w[e] /\ (k > 3) = t }
                      IN IF ks = {} THEN DurNo
                         ELSE LET k == CHOOSE k \in ks : TRUE
                              IN Scan(w, e + 1, k, t, n + 1, TRUE, [p EXCEPT ![k] = val], us)
DurParse(w) ==
    LET x == Scan(w, 2, 0, FALSE, 0, FALSE, <<0, 0, 0, 0, 0, 0>>, 0)
        secs == x.p[4] * 3600 + x.p[5] * 60 + x.p[6]
    IN IF ~x.ok THEN No
       ELSE [ok |-> IF x.bare THEN "odd" ELSE "yes", k |-> "duration",
             v |-> <<x.p[1] * 365 + x.p[2] * 30 + x.p[3] + secs \div 86400, Mod(secs, 86400), x.us>>]
Point(w) == IF \E i \in 1..Len(w) : w[i] = "T" THEN DateTimeParse(w) ELSE DateParse(w)
\* margin: a number filled up with a space
Filled(w) == [i \in 1..Len(w) |-> IF w[i] = " " /\ i > 1 /\ i < Len(w) /\ IsDigit(w[i + 1]) /\ ~IsDigit(w[i - 1]) THEN "0" ELSE w[i]]
Parse(w) == IF w = <<>> THEN No
            ELSE IF w[1] = "P" THEN DurParse(w)
            ELSE LET x == Point(Filled(w)) IN IF Filled(w) = w \/ x.ok = "no" THEN x ELSE [x EXCEPT !.ok = "odd"]

\* a duration whose fraction of seconds is finer than microseconds lies between two values
Finer(w) == w[1] = "P" /\ \E i \in 1..Len(w) : w[i] = "," /\ \E j \in (i + 7)..Len(w) : IsDigit(w[j]) /\ w[j] # "0"
Next1(v) == IF v[3] < 999999 THEN <<v[1], v[2], v[3] + 1>> ELSE IF v[2] < 86399 THEN <<v[1], v[2] + 1, 0>> ELSE <<v[1] + 1, 0, 0>>
RoundTrip(k, v) == LET x == Parse(TextOf(k, v)) IN x.ok = "yes" /\ x.k = k /\ x.v = Shown(k, v)
-------------------------------------------------------------------------
AOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
Seen(k, v, w) == [k |-> k, v |-> v, w |-> w, date |-> k # "duration", time |-> k = "datetime", dur |-> k = "duration"]
DurationApply(s, op) ==
  CASE op.a = "parse" ->
         LET x == Parse(op.w)
             good == { AOut("ok", << Seen(x.k, v, TextOf(x.k, v)) >>, s) : v \in IF x.ok # "no" /\ Finer(op.w) THEN {x.v, Next1(x.v)} ELSE {x.v} }
             bad == { AOut("rej", <<>>, s) }
         IN CASE x.ok = "no" -> bad [] x.ok = "odd" -> good \cup bad [] OTHER -> good
    [] op.a = "format" ->       \* the text of the value, and what is read back from that text
         { AOut("ok", << Seen(op.k, op.v, TextOf(op.k, op.v)), Seen(op.k, Shown(op.k, op.v), TextOf(op.k, Shown(op.k, op.v))) >>, s) }
    [] OTHER -> {}
=============================================================================
