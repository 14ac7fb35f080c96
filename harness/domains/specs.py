"""Which specification, bounds and clause-to-property map each domain uses (no code under test here)."""


def table_blame(op, exp, got, f):
    out = set()
    if "v" in f or got["r"].startswith("crash:project"):
        out.add("C09")
    if exp["r"] == "rej":
        out.add("C10")
    else:
        if got["r"].startswith("rej"):
            out |= {"C10", "C08"}
        if set(f) & {"m", "ri", "ci", "cx", "held", "ex", "q", "r"}:
            out.add("C08")
    return out


def span_blame(op, exp, got, f):
    if exp["r"] == "rej":
        return {"C10", "C11"}
    return {"C11", "C10"} if got["r"].startswith("rej") else {"C11"}


def cellvalue_blame(op, exp, got, f):
    if exp["r"] == "rej":
        return {"C10", "C13"}
    return {"C13", "C10"} if got["r"].startswith("rej") else {"C13"}


def blame_all(*ids):
    return lambda op, exp, got, f: set(ids)


def text_blame(op, exp, got, f):
    if op.get("a") in ("encode", "spaces"):
        return {"C18"}
    out = set()
    if "flat" in f:
        out.add("C18")
    if set(f) & {"plain", "len"}:
        out.add("C17")
    return out or {"C17", "C18"}


def sub(f, exp, got, names):
    """names of the fields of a query answer that differ"""
    if "q" not in f:
        return set()
    e, g = exp.get("q"), got.get("q")
    if not isinstance(e, dict) or not isinstance(g, dict):
        return {"q"}
    return {k for k in names if k in e and k in g and e[k] != g[k] or (k in e) != (k in g)}


def docstore_blame(op, exp, got, f):
    a = op.get("a")
    if got["r"] != exp["r"]:
        if a == "new":
            return {"C04"}
        if a in ("open", "template"):
            return {"C01", "C02", "C03", "C04", "C07"} if exp["r"] == "ok" else {"C01", "C04"}
        if a in ("save", "saveas", "savestream", "tobytes"):
            return {"C01", "C02", "C03", "C06", "C07"} if exp["r"] == "ok" else {"C06"}
        return {"C01"}
    out = set()
    for names, p in ((("fcont", "mem"), "C01"), (("fext", "funk"), "C02"), (("fwf", "fman"), "C03"), (("fkind", "mkind"), "C04"),
                     (("ftype", "mname"), "C06"), (("fmeta", "mmeta"), "C07")):
        if set(f) & set(names):
            out.add(p)
    if "ftype" in f:
        out |= {"C01", "C03"}
    d = sub(f, exp, got, ("from", "log", "tb", "trees"))
    if "trees" in d:
        out.add("C01")
    if "from" in d:
        out.add("C06")
    if "log" in d:
        out.add("C07")
    if "tb" in d:
        e, g = exp["q"]["tb"], got["q"]["tb"]
        for names, p in ((("cont", "type"), "C01"), (("ext", "unk"), "C02"), (("wf", "man", "type"), "C03"), (("kind",), "C04"), (("cyc", "born"), "C07")):
            if any(e[k] != g[k] for k in names):
                out.add(p)
    return out or {"C01"}


DOMAINS = {
    "names": dict(
        mc="NamesMC", trace="NamesTrace", blame=blame_all("C30"),
        quick=dict(mc=[dict(MaxDepth=5)], n=300, len=30),
        thorough=dict(mc=[dict(MaxDepth=6)], n=5000, len=60)),
    "frame": dict(
        mc="FrameMC", trace="FrameTrace", blame=blame_all("C31"),
        quick=dict(mc=[dict(MaxDepth=2), dict(MaxDepth=3, Kinds='{"flat"}', Tags='{"styles", "body"}')], n=300, len=20),
        thorough=dict(mc=[dict(MaxDepth=4)], n=5000, len=40)),
    "workbook": dict(
        mc="WorkbookMC", trace="WorkbookTrace", blame=blame_all("C29"),
        quick=dict(mc=[dict(MaxDepth=4), dict(MaxDepth=5, Starts='{"ods"}', Acts='{"load", "sheet", "cell"}')], n=500, len=40),
        thorough=dict(mc=[dict(MaxDepth=5), dict(MaxDepth=6, Starts='{"ods"}', Acts='{"load", "sheet", "cell"}')], n=6000, len=80)),
    "savefs": dict(
        mc="SaveFSMC", trace="SaveFSTrace", blame=blame_all("C05"), unchecked=("ins",), models=[("SaveProtocol", {}, True), ("SaveProtocol", {"Order": '"inplace"'}, False)],
        quick=dict(mc=[dict(MaxDepth=5)], n=1200, len=24),
        thorough=dict(mc=[dict(MaxDepth=6)], n=20000, len=24)),
    "docstore": dict(
        mc="DocStoreMC", trace="DocStoreTrace", blame=docstore_blame,
        scripts=[[{"a": "init", "files": []}, {"a": "new", "d": "1", "k": k, "f": ""}] for k in ("odf", "otf")],
        quick=dict(mc=[dict(MaxDepth=4)], n=400, len=30),
        thorough=dict(mc=[dict(MaxDepth=5)], n=5000, len=60)),
    "attrs": dict(
        mc="AttrsMC", trace="AttrsTrace", blame=blame_all("C27"),
        quick=dict(mc=[dict(MaxDepth=3), dict(MaxDepth=4, Mode='"list"', Kinds='{"List", "NumberedParagraph"}')], n=500, len=30),
        thorough=dict(mc=[dict(MaxDepth=4), dict(MaxDepth=6, Mode='"list"', Kinds='{"List", "NumberedParagraph"}')], n=8000, len=60)),
    "stylestore": dict(
        mc="StyleStoreMC", trace="StyleStoreTrace", blame=blame_all("C26"),
        quick=dict(mc=[dict(MaxDepth=3), dict(MaxDepth=4, Cs='{"common", "auto"}', Kinds='{"odt"}')], n=400, len=30),
        thorough=dict(mc=[dict(MaxDepth=5)], n=6000, len=60)),
    "duration": dict(
        mc="DurationMC", trace="DurationTrace", blame=blame_all("C25"),
        quick=dict(mc=[dict()], n=300, len=40),
        thorough=dict(mc=[dict(MaxLen=4)], n=6000, len=80)),
    "manifestmap": dict(
        mc="ManifestMapMC", trace="ManifestMapTrace", blame=blame_all("C24"),
        quick=dict(mc=[dict(MaxDepth=4)], n=400, len=25),
        thorough=dict(mc=[dict(MaxDepth=5)], n=6000, len=60)),
    "eventbus": dict(
        mc="EventBusMC", trace="EventBusTrace", blame=blame_all("C23"),
        quick=dict(mc=[dict(MaxDepth=4)], n=400, len=30),
        thorough=dict(mc=[dict(MaxDepth=6)], n=6000, len=60)),
    "variables": dict(
        mc="VariablesMC", trace="VariablesTrace", blame=blame_all("C22"),
        quick=dict(mc=[dict(MaxDepth=3), dict(MaxDepth=3, Kinds='{"ods"}', Docs='{"both"}')], n=400, len=25),
        thorough=dict(mc=[dict(MaxDepth=5)], n=6000, len=50)),
    "metastore": dict(
        mc="MetaStoreMC", trace="MetaStoreTrace", blame=blame_all("C21"),
        quick=dict(mc=[dict(MaxDepth=3)], n=400, len=30),
        thorough=dict(mc=[dict(MaxDepth=4)], n=6000, len=60)),
    "nodeorg": dict(
        mc="NodeOrgMC", trace="NodeOrgTrace", blame=blame_all("C28"),
        quick=dict(mc=[dict(), dict(Alphabet='{"a", "c", "g", "x", "y"}', MaxLen=4)], n=400, len=25),
        thorough=dict(mc=[dict(MaxLen=4), dict(Alphabet='{"a", "b", "g", "y", "z"}', MaxLen=5, MaxDepth=3)], n=6000, len=50)),
    "bodyorder": dict(
        mc="BodyOrderMC", trace="BodyOrderTrace", blame=blame_all("C19"),
        quick=dict(mc=[dict(MaxDepth=2, Kinds='{"odt", "ods", "odp"}'), dict(MaxDepth=3, Preludes='{"decls"}', Epilogues='{"none", "two"}')], n=400, len=25),
        thorough=dict(mc=[dict(MaxDepth=4, Preludes='{"decls", "full"}')], n=6000, len=50)),
    "nodelist": dict(
        mc="NodeListMC", trace="NodeListTrace", blame=blame_all("C20"),
        quick=dict(mc=[dict(MaxDepth=9), dict(MaxDepth=3, Setups='{"flat", "deep"}')], n=400, len=30),
        thorough=dict(mc=[dict(MaxDepth=9, Setups='{"flat", "deep"}')], n=6000, len=60)),
    "text": dict(
        mc="TextMC", trace="TextTrace", blame=text_blame,
        quick=dict(mc=[dict(), dict(MaxDepth=4, CreateLen=1, AppendLen=1, Chars='{" ", "a"}', Kinds='{"Paragraph", "ListItem"}', EncLen=8)], n=400, len=14),
        thorough=dict(mc=[dict(MaxDepth=3, EncLen=7), dict(MaxDepth=4, CreateLen=2, AppendLen=1, Chars='{" ", "a"}', EncLen=12)], n=6000, len=25)),
    "package": dict(
        mc="PackageMC", trace="PackageTrace", blame=blame_all("C32"),
        quick=dict(mc=[dict()], n=400, len=8),
        thorough=dict(mc=[dict(MaxDepth=4)], n=8000, len=12)),
    "parts": dict(
        mc="PartsMC", trace="PartsTrace", blame=blame_all("C33"),
        quick=dict(mc=[dict(MaxDepth=3), dict(MaxDepth=5, Is="{1}", Cs='{"y"}', Ms='{""}')], n=200, len=20),
        thorough=dict(mc=[dict(MaxDepth=4), dict(MaxDepth=6, Is="{1, 2}", Cs='{"y"}', Ms='{""}')], n=3000, len=40)),
    "pagelist": dict(
        mc="PageListMC", trace="PageListTrace", blame=blame_all("C16"),
        quick=dict(mc=[dict(MaxDepth=3), dict(MaxDepth=3, Kinds='{"odp"}')], n=300, len=30),
        thorough=dict(mc=[dict(MaxDepth=4, Kinds='{"ods", "odg", "odp"}')], n=5000, len=60)),
    "copies": dict(
        mc="CopiesMC", trace="CopiesTrace", blame=blame_all("C15"),
        quick=dict(mc=[dict()], n=300, len=20),
        thorough=dict(mc=[dict(MaxDepth=5)], n=5000, len=40)),
    "expand": dict(
        mc="ExpandMC", trace="ExpandTrace", blame=blame_all("C12"),
        quick=dict(mc=[dict(), dict(Lays='{"header", "group", "nested", "explicit"}', Reps="{1, 3}")], n=250, len=16),
        thorough=dict(mc=[dict(Lays='{"plain", "header", "group", "nested", "explicit"}', Reps="{1, 2, 3, 4}")], n=4000, len=30)),
    "address": dict(
        mc="AddressMC", trace="AddressTrace", blame=blame_all("C14"),
        quick=dict(mc=[dict(), dict(Ops='{"parse"}', MaxLen=4)], n=200, len=25),
        thorough=dict(mc=[dict(MaxLen=4, Ops='{"parse", "get", "column"}'), dict(Ops='{"parse"}', MaxLen=5, Check=20000)], n=4000, len=40)),
    "cellvalue": dict(
        mc="CellValueMC", trace="CellValueTrace", blame=cellvalue_blame,
        quick=dict(mc=[dict(MaxDepth=2)], n=500, len=20),
        thorough=dict(mc=[dict(MaxDepth=3)], n=10000, len=30)),
    "table": dict(
        mc="TableMC", trace="TableTrace", blame=table_blame,
        quick=dict(mc=[dict(MaxDepth=3, MaxR=2, MaxC=2)], n=400, len=24, par={"max": 8}),
        thorough=dict(mc=[dict(MaxDepth=4, MaxR=2, MaxC=2), dict(MaxDepth=3, MaxR=3, MaxC=3)], n=6000, len=40, par={"max": 14})),
    "span": dict(
        mc="SpanMC", trace="SpanTrace", blame=span_blame,
        quick=dict(mc=[dict(MaxDepth=3, Structure="FALSE"), dict(MaxDepth=3, NRows=2)], n=300, len=24),
        thorough=dict(mc=[dict(MaxDepth=5)], n=5000, len=40)),
}
PROPERTIES = {
    "C08": ["table"], "C09": ["table"], "C10": ["table", "span", "cellvalue"], "C11": ["span"], "C12": ["expand"], "C15": ["copies"], "C16": ["pagelist"], "C13": ["cellvalue"], "C20": ["nodelist"], "C19": ["bodyorder"], "C28": ["nodeorg"], "C21": ["metastore"], "C22": ["variables"], "C23": ["eventbus"], "C24": ["manifestmap"], "C25": ["duration"], "C26": ["stylestore"], "C27": ["attrs"], "C01": ["docstore"], "C02": ["docstore"], "C03": ["docstore"], "C04": ["docstore"], "C06": ["docstore"], "C07": ["docstore"], "C05": ["savefs"], "C17": ["text"], "C18": ["text"], "C14": ["address"], "C29": ["workbook"], "C30": ["names"], "C31": ["frame"], "C32": ["package"], "C33": ["parts"],
}
NOTES = {}
NOT_APPLICABLE = {}
