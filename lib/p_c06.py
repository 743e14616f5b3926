"""C06: different types have different ABI reports and identifiers."""
import os
import common as C
import facts
import p_c06c
import reportrules as R

W = os.path.join(C.ROOT, "witness", "reports")
GENERIC_ENUMS = {
    "witness_reports::user::EG<u8>": [("A", "u8"), ("B", "()"), ("C", "u8")],
    "witness_reports::user::EG<u16>": [("A", "u16"), ("B", "()"), ("C", "u8")],
    "witness_reports::user::EG2<u8, u16>": [("X", "u8"), ("Y", "u16")],
    "witness_reports::user::EG2<u16, u8>": [("X", "u16"), ("Y", "u8")],
}


def dump():
    d, _ = C.run_driver(W, ["witness_reports"], "layout", "stable,oneat,reports,decl,ids,noclaims", target="reports")
    return d["witness_reports.layout.json"]


def warm():
    C.run_driver(W, ["witness_reports"], "layout", "", target="reports")


def check():
    rep = C.Report("C06", "proof", "type-level dataflow: the reports and identifiers rustc evaluates for every IStable impl, "
                   "compared with the declarations and with each other; path analysis of the comparison's MIR")
    try:
        d = dump()
    except C.Rejected as e:
        ok, log = C.repo_compiles()
        if not ok:
            raise C.ToolError("the library does not compile:\n" + log[-3000:])
        raise
    exc, enums = R.parse_witness(os.path.join(W, "src", "lib.rs"), "witness_reports")
    enums.update(GENERIC_ENUMS)
    R.declared(rep, d, exc, enums)
    R.distinct(rep, d)
    p_c06c.check(facts.load(), rep)
    for rule, n in (("declared-name", 300), ("declared-fields", 200), ("declared-variants", 40), ("declared-payload", 60),
                    ("distinct-report", 3000), ("identifier", 250)):
        rep.floor(rule, n)
    rep.coverage["entries"] = len(d["entries"])
    rep.coverage["impls"] = len(d["impls"])
    rep.assumptions += ["the reports are those of the build host's configuration (see C24 for the others)",
                        "generic impls are evaluated with each parameter varied over the argument pools of witness/reports"]
    return rep
