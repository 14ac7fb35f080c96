------------------------------- MODULE Names -------------------------------
(* Qualified names and wrapper classes (C30).                               *)
(*  pre : <<prefix, uri>> registered by the user, the last one counts       *)
(*  cls : <<tag, class number>> registered by the user                      *)
EXTENDS ListOps, TLC
NamesNull == [pre |-> <<>>, cls |-> <<>>, live |-> "no"]
NOut(r, q, s) == [r |-> r, q |-> q, s |-> s]
MHas(m, k) == \E i \in 1..Len(m) : m[i][1] = k
MGet(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]
MPut(m, k, v) == IF MHas(m, k) THEN [i \in 1..Len(m) |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]] ELSE Append(m, <<k, v>>)

\* the name spaces of OpenDocument
Odf == [ office |-> "urn:oasis:names:tc:opendocument:xmlns:office:1.0", meta |-> "urn:oasis:names:tc:opendocument:xmlns:meta:1.0",
         config |-> "urn:oasis:names:tc:opendocument:xmlns:config:1.0", text |-> "urn:oasis:names:tc:opendocument:xmlns:text:1.0",
         table |-> "urn:oasis:names:tc:opendocument:xmlns:table:1.0", draw |-> "urn:oasis:names:tc:opendocument:xmlns:drawing:1.0",
         presentation |-> "urn:oasis:names:tc:opendocument:xmlns:presentation:1.0", dr3d |-> "urn:oasis:names:tc:opendocument:xmlns:dr3d:1.0",
         anim |-> "urn:oasis:names:tc:opendocument:xmlns:animation:1.0", chart |-> "urn:oasis:names:tc:opendocument:xmlns:chart:1.0",
         form |-> "urn:oasis:names:tc:opendocument:xmlns:form:1.0", script |-> "urn:oasis:names:tc:opendocument:xmlns:script:1.0",
         style |-> "urn:oasis:names:tc:opendocument:xmlns:style:1.0", number |-> "urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0",
         manifest |-> "urn:oasis:names:tc:opendocument:xmlns:manifest:1.0", fo |-> "urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0",
         svg |-> "urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0", smil |-> "urn:oasis:names:tc:opendocument:xmlns:smil-compatible:1.0",
         dc |-> "http://purl.org/dc/elements/1.1/", xlink |-> "http://www.w3.org/1999/xlink",
         math |-> "http://www.w3.org/1998/Math/MathML", xforms |-> "http://www.w3.org/2002/xforms",
         xhtml |-> "http://www.w3.org/1999/xhtml", grddl |-> "http://www.w3.org/2003/g/data-view#",
         of |-> "urn:oasis:names:tc:opendocument:xmlns:of:1.2", dom |-> "http://www.w3.org/2001/xml-events",
         xsd |-> "http://www.w3.org/2001/XMLSchema", xsi |-> "http://www.w3.org/2001/XMLSchema-instance",
         ooo |-> "http://openoffice.org/2004/office", ooow |-> "http://openoffice.org/2004/writer",
         oooc |-> "http://openoffice.org/2004/calc", rpt |-> "http://openoffice.org/2005/report" ]
\* the wrapper classes of the library
Kinds == { <<"office:text", "TextBody">>, <<"office:spreadsheet", "SpreadsheetBody">>, <<"office:drawing", "DrawingBody">>,
           <<"office:presentation", "PresentationBody">>, <<"office:chart", "ChartBody">>, <<"office:image", "ImageBody">>,
           <<"table:table-cell", "Cell">>, <<"table:covered-table-cell", "CoveredCell">>, <<"draw:page", "DrawingPage">>,
           <<"office:document-meta", "OfficeDocumentMeta">>, <<"office:document-styles", "OfficeDocumentStyles">>, <<"office:font-face-decls", "OfficeFontFaceDecls">>,
           <<"office:styles", "OfficeStyles">>, <<"office:automatic-styles", "OfficeAutomaticStyles">>, <<"office:master-styles", "OfficeMasterStyles">>,
           <<"style:style", "Style">>, <<"style:default-style", "DefaultStyle">>, <<"style:page-layout", "PageLayout">>,
           <<"style:font-face", "FontFace">>, <<"table:table", "Table">>, <<"table:table-column", "TableColumn">>,
           <<"table:table-row", "TableRow">>, <<"text:span", "Span">>, <<"text:p", "Paragraph">>,
           <<"text:numbered-paragraph", "NumberedParagraph">>, <<"text:h", "Heading">>, <<"text:a", "Hyperlink">>,
           <<"text:list-header", "ListHeader">>, <<"text:list-item", "ListItem">>, <<"text:list", "List">>,
           <<"text:section", "Section">>, <<"text:variable-decls", "SimpleVariables">>, <<"text:user-field-decls", "UserFields">>,
           <<"text:variable-decl", "SimpleVariable">>, <<"text:user-field-decl", "UserField">>, <<"text:variable-set", "SimpleVariableSet">>,
           <<"text:variable-get", "SimpleVariableGet">>, <<"text:variable-input", "SimpleVariableInput">>, <<"text:user-field-set", "UserFieldSet">>,
           <<"text:user-field-get", "UserFieldGet">>, <<"text:user-field-input", "UserFieldInput">>, <<"text:tab", "Tabulator">>,
           <<"text:line-break", "LineBreak">>, <<"text:s", "Spaces">>, <<"text:soft-page-break", "SoftPageBreak">> }
KindOf(t) == (CHOOSE x \in Kinds : x[1] = t)[2]

Clark(u, l) == "{" \o u \o "}" \o l
NamesApply(s, op) ==
  CASE op.a = "setup" -> { NOut("ok", <<>>, [NamesNull EXCEPT !.live = "yes"]) }
    [] op.a = "register" -> { NOut("ok", <<>>, [s EXCEPT !.pre = MPut(@, op.p, op.u)]) }
    \* form: prefix "p:l", clark "{u}l", and strings that are no qualified names
    [] op.a = "cn" -> CASE op.form = "clark" -> { NOut("ok", Clark(op.p, op.l), s) }
                        [] op.form = "prefix" -> IF MHas(s.pre, op.p) THEN { NOut("ok", Clark(MGet(s.pre, op.p), op.l), s) }
                                                 ELSE { NOut("rej", <<>>, s) }
                        [] OTHER -> { NOut("rej", <<>>, s) }
    [] op.a = "odf" -> { NOut("ok", Clark(Odf[op.p], op.l), s) }
    [] op.a = "regclass" -> { NOut("ok", <<>>, [s EXCEPT !.cls = MPut(@, op.t, op.k)]) }
    [] op.a = "wrap" -> { NOut("ok", IF MHas(s.cls, op.t) THEN MGet(s.cls, op.t) ELSE 0, s) }
    [] op.a = "kind" -> { NOut("ok", KindOf(op.t), s) }
    \* the same local name in a name space of somebody else
    [] op.a = "foreign" -> { NOut("ok", "GenericWrapper", s) }
    [] OTHER -> {}
=============================================================================
