---------------------------- MODULE CellValueMC ----------------------------
EXTENDS CellValue, Explore
Live == hist # <<>>
V(k, s, n, b) == [k |-> k, s |-> s, n |-> n, b |-> b, t |-> ""]
Vals == { V("str", "a b", "", "true"), V("str", "", "", "false"), V("str", "x\\ty\\nz  w", "", "true"), V("str", "12.5", "12.5", "true"),
          V("str", "2011-02-03", "", "true"), V("int", "0", "0.0", "false"), V("int", "-7", "-7.0", "true"),
          V("float", "0.1", "0.1", "true"), V("float", "1e+100", "1e+100", "true"),
          V("bool", "True", "", "true"), V("bool", "False", "", "false"), V("none", "", "", "false"), V("obj", "", "", "true"),
          [V("para", "", "", "true") EXCEPT !.t = "p  q"], [V("heading", "", "", "true") EXCEPT !.t = "h\\tq"] }
Types == ValueTypes \cup {"#none", "bogus", ""}
Curs == {"#none", "EUR", ""}
Texts == {"", " ", "t  u", "\\n"}
\* the arguments of set_value the specification defines
Calls == { c \in Vals \X Types \X Curs : (c[3] # "#none" => c[2] \in {"#none", "float"}) }

Create == ~Live /\ \E c \in Calls : Do([a |-> "create", v |-> c[1], vt |-> c[2], cur |-> c[3], sty |-> "S"])
P(t) == <<"p", t, "", "">>
Annotation == <<"x", "office:annotation", "", "">>
Load == ~Live /\ \E x \in { <<"float", "float:2.0", "", <<P("two")>> >>, <<"currency", "float:3.5", "USD", <<Annotation, P("3.50 $")>> >>,
                            <<"string", "str:", "", <<P("a  b")>> >>, <<"string", "str:", "", <<P("a"), P("b"), Annotation>> >>, <<"string", "str:", "", <<>> >>,
                            <<"string", "str:", "", << <<"h", "top", "", "">>, P("b") >> >>, <<"float", "float:0.0", "", <<>> >>,
                            <<"boolean", "bool:true", "", <<P("TRUE"), P("x")>> >>, <<"date", "str:2011-01-01", "", <<P("1.1.")>> >>,
                            <<"time", "str:PT1H", "", << <<"h", "1:00", "", "">> >> >>, <<"percentage", "float:0.5", "", <<P("50%")>> >> } :
           Do([a |-> "load", typ |-> x[1], val |-> x[2], cur |-> x[3], con |-> x[4], sty |-> "S"])
SetV == Live /\ \E c \in Calls : Do([a |-> "set_value", v |-> c[1], vt |-> c[2], cur |-> c[3]])
AppendT == Live /\ \E t \in Texts : \E y \in {"", "Y"} : Do([a |-> "append_text", t |-> t, y |-> y])
Display == Live /\ \E t \in Texts : Do([a |-> "display_form", t |-> t])
Attr == Live /\ \E a \in {"style_name", "formula", "validation"} : Do([a |-> a, t |-> "Z"])
Prot == Live /\ \E t \in {"true", "false"} : Do([a |-> "protected", t |-> t])
Reload == Live /\ Do([a |-> "reload"])
Next == Shallow /\ (Create \/ Load \/ SetV \/ AppendT \/ Display \/ Attr \/ Prot \/ Reload)
Spec == ExploreInit /\ [][Next]_evars
InvType == TypeOK(st)
=============================================================================
