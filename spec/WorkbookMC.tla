----------------------------- MODULE WorkbookMC -----------------------------
EXTENDS Workbook, Explore
CONSTANTS Handles, Starts, Acts
Live == hist # <<>>
S(n, m, sp, rv, cv) == [n |-> n, m |-> m, sp |-> sp, rv |-> rv, cv |-> cv]
Ods == [kind |-> "ods", text |-> <<>>,
        sheets |-> << S("S", << <<"x", "#1">>, <<"?1", "">> >>, <<>>, <<"", "r1">>, <<"c1", "">>), S("T", << <<"y", "z">> >>, << <<0, 0, 1, 2>> >>, <<"">>, <<"", "">>) >>,
        meta |-> [title |-> "T", keys |-> <<"k">>, tags |-> << <<"n", "v">> >>, cnt |-> 3],
        vars |-> [uf |-> << <<"u", "1st">> >>, va |-> << <<"w", "2nd">> >>], sty |-> [c |-> << <<"s1", "a">> >>, a |-> << <<"s1", "b">> >>]]
Odt == [Empty("odt") EXCEPT !.text = <<"p", "q">>, !.vars = [uf |-> << <<"u", "x">> >>, va |-> << <<"u", "y">> >>], !.meta.keys = <<"k", "l">>]
Presets == [ods |-> [A |-> Ods], both |-> [A |-> Ods, B |-> Odt], odt |-> [A |-> Odt]]
Docs == { d \in Slots : st.kind[d] # "" }
Sheets(d) == { d } \X (1..Len(st.sheets[d]))
AllSheets == UNION { Sheets(d) : d \in Docs }
On(a) == Live /\ a \in Acts
NoSpan(d, i) == st.sheets[d][i].sp = <<>>
Small(d) == Len(st.sheets[d]) <= 3
Ods1(d) == st.kind[d] = "ods"
Text1(d) == st.kind[d] = "odt"

Start == ~Live /\ \E p \in Starts : Do([a |-> "start", blobs |-> Presets[p]])
New == On("new") /\ \E d \in Handles, k \in {"ods", "odt"} : d \notin Docs /\ Do([a |-> "new", d |-> d, k |-> k])
Load == On("load") /\ \E d \in Handles, b \in Names, how \in {"bytes", "path", "template"} : d \notin Docs /\ st.blobs[b].kind # "" /\ Do([a |-> "load", d |-> d, b |-> b, how |-> how])
Store == On("store") /\ \E d \in Docs, how \in {"bytes", "path"} : Do([a |-> "store", d |-> d, b |-> "C", how |-> how])
Drop == On("drop") /\ \E d \in Docs : Do([a |-> "drop", d |-> d])
SheetNew == On("sheet") /\ \E d \in Docs : Ods1(d) /\ Small(d) /\ Do([a |-> "sheetnew", d |-> d, n |-> "N", h |-> 1, w |-> 2, p |-> 0])
SheetCopy == On("sheet") /\ \E x \in AllSheets, e \in Docs : Ods1(e) /\ Small(e) /\ Do([a |-> "sheetcopy", d |-> x[1], i |-> x[2], e |-> e, n |-> "K"])
SheetMove == On("sheet") /\ \E x \in AllSheets, e \in Docs : Ods1(e) /\ Small(e) /\ Do([a |-> "sheetmove", d |-> x[1], i |-> x[2], e |-> e])
SheetSet == On("sheet") /\ \E x \in AllSheets, y \in AllSheets : Do([a |-> "sheetset", d |-> x[1], i |-> x[2], e |-> y[1], j |-> y[2]])
SheetDel == On("sheet") /\ \E x \in AllSheets : Do([a |-> "sheetdel", d |-> x[1], i |-> x[2]])
Rename == On("cell") /\ \E x \in AllSheets : Do([a |-> "rename", d |-> x[1], i |-> x[2], n |-> "R"])
CellSet == On("cell") /\ \E x \in AllSheets, t \in {"new", "#2"} : Do([a |-> "cell", d |-> x[1], i |-> x[2], r |-> 0, c |-> 0, x |-> t])
Take == On("cell") /\ \E x \in AllSheets, y \in AllSheets : NoSpan(x[1], x[2]) /\ NoSpan(y[1], y[2]) /\ NC(st.sheets[y[1]][y[2]]) > 1 /\
          Do([a |-> "take", d |-> x[1], i |-> x[2], r |-> 0, c |-> 0, e |-> y[1], j |-> y[2], r2 |-> 0, c2 |-> 1])
Rows == On("grid") /\ \E x \in AllSheets : LET t == st.sheets[x[1]][x[2]] IN t.sp = <<>> /\
          \E a \in {"insrow", "delrow", "inscol", "delcol"} :
            /\ a = "insrow" => NR(t) < 3
            /\ a = "delrow" => NR(t) > 1
            /\ a = "inscol" => NC(t) < 3
            /\ a = "delcol" => NC(t) > 1
            /\ Do([a |-> a, d |-> x[1], i |-> x[2], p |-> IF a \in {"insrow", "inscol"} THEN 1 ELSE 0])
Span == On("grid") /\ \E x \in AllSheets : LET t == st.sheets[x[1]][x[2]] IN
          IF t.sp = <<>> THEN NC(t) > 1 /\ Do([a |-> "span", d |-> x[1], i |-> x[2], r |-> 0, c |-> 0, h |-> 1, w |-> 2])
          ELSE Do([a |-> "unspan", d |-> x[1], i |-> x[2]])
Style2 == On("grid") /\ \E x \in AllSheets : (Do([a |-> "rowstyle", d |-> x[1], i |-> x[2], r |-> 0, x |-> "rs"]) \/ Do([a |-> "colstyle", d |-> x[1], i |-> x[2], c |-> 0, x |-> "cs"])
                                             \/ Do([a |-> "wipe", d |-> x[1], i |-> x[2], h |-> 2, w |-> 1]))
TextA == On("text") /\ \E d \in Docs : Text1(d) /\ Len(st.text[d]) < 4 /\ Do([a |-> "text", d |-> d, x |-> "t"])
TextMove == On("text") /\ \E d \in Docs, e \in Docs : Text1(d) /\ Text1(e) /\ \E i \in 1..Len(st.text[d]) : Do([a |-> "textmove", d |-> d, i |-> i, e |-> e])
TextMore == On("text") /\ \E d \in Docs : \E i \in 1..Len(st.text[d]) : (Do([a |-> "more", d |-> d, i |-> i, x |-> "+"]) \/ Do([a |-> "textdel", d |-> d, i |-> i]))
MetaA == On("meta") /\ \E d \in Docs : (Do([a |-> "title", d |-> d, x |-> "new"]) \/ Do([a |-> "key", d |-> d, x |-> "w"]) \/ Do([a |-> "nokeys", d |-> d])
                                       \/ Do([a |-> "tag", d |-> d, n |-> "m", x |-> "t"]) \/ Do([a |-> "untag", d |-> d, n |-> "n"]) \/ Do([a |-> "count", d |-> d, x |-> 9]))
VarA == On("vars") /\ \E d \in Docs, n \in {"u", "w"} : (Do([a |-> "uf", d |-> d, n |-> n, x |-> "#5"]) \/ Do([a |-> "va", d |-> d, n |-> n, x |-> "str"]))
StyA == On("vars") /\ \E d \in Docs, w \in {"c", "a"}, n \in {"s1", "s2"} : Do([a |-> "style", d |-> d, w |-> w, n |-> n, x |-> "z"])
Inject == On("vars") /\ \E d \in Docs : Len(st.sty[d].c) < 3 /\ Do([a |-> "inject", d |-> d, n |-> "s9", x |-> "i"])
Default == On("meta") /\ Do([a |-> "default"])
Next == Shallow /\ (Start \/ New \/ Load \/ Store \/ Drop \/ SheetNew \/ SheetCopy \/ SheetMove \/ SheetSet \/ SheetDel \/ Rename \/ CellSet \/ Take \/ Rows \/ Span \/ Style2
                    \/ TextA \/ TextMove \/ TextMore \/ MetaA \/ VarA \/ StyA \/ Inject \/ Default)
Spec == ExploreInit /\ [][Next]_evars
Inv == WorkbookOk(st)
\* the independence of documents, as a property of the specification
Independent == [][ (Len(hist) > 0 /\ hist' # hist) => \A d \in Slots \ Touched(LastOp'.o) : DocOf(st', d) = DocOf(st, d) ]_evars
Stored == [][ (Len(hist) > 0 /\ hist' # hist) => \A b \in Names : st'.blobs[b] # st.blobs[b] => LastOp'.o.a = "store" /\ LastOp'.o.b = b ]_evars
=============================================================================
