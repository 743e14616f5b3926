"""C01, C02, C03, C32: what stable types claim against what the compiler lays out."""
import os
import common as C
import layoutrules as L

CONFIGS = {
    # (features of the witness, extra environment)
    "default": ("", {}),
}
THOROUGH = {
    "ctypes+libc+serde": ("ctypes,libc,serde", {}),
}


def dump(parts, features="", extra=None):
    d, _ = C.run_driver(os.path.join(C.ROOT, "witness", "layout"), ["witness_layout"], "layout", parts,
                        features=features, extra=extra, target="layout")
    return d["witness_layout.layout.json"]


FLOORS = {"C01": ("size", 20000), "C02": ("fv", 8000), "C03": ("niche", 20000), "C32": ("ind", 20000)}
RULE = {
    "C01": "claimed Size/Align == layout_of(T) for every stable type instance",
    "C02": "no valid value of T (from its layout tree: scalar valid ranges, tags, cells, stabby sums) matches a claimed forbidden pattern; no claimed unused bit is used by a leaf",
    "C03": "claimed HasExactlyOneNiche agrees with the niche the compiler computed, and Option<T> keeps T's size exactly then",
    "C32": "a type whose layout tree contains a pointer leaf claims to contain indirections",
}


def check(prop):
    rep = C.Report(prop, "other", RULE[prop] + "; types come from every `impl IStable` of the crate graph instantiated over pools of argument types, and from annotated user types of /verif/witness/layout")
    configs = dict(CONFIGS)
    if C.TIER == "thorough":
        configs.update(THOROUGH)
    uninst = set()
    for cname, (feat, extra) in configs.items():
        d = dump("stable", feat, extra)
        res, stats = L.check_entries(d)
        heads = {e["impl"] for e in d["entries"]}
        for e in d["entries"]:
            if e["impl"] in ("user",) or len(rep.samples) < 4:
                rep.sample("%s: size %s align %s claims %s" % (L.short(e["s"]), e.get("size"), e.get("align"), {k: v for k, v in e["claims"].items() if k in ("Size", "Align", "HasExactlyOneNiche", "ContainsIndirections")}), 8)
        for i in d["impls"]:
            if i["n"] == 0:
                uninst.add(L.short(i["self"]))
        name, n = FLOORS[prop]
        rep.count("impl IStable", len(d["impls"]))
        rep.count(name, stats[name])
        if prop == "C02":
            rep.count("ub", stats["ub"])
        if stats[name] < n:
            rep.violation("floor|" + name, "only %d type instances could be examined (%d expected)" % (stats[name], n))
        if len(d["impls"]) < 170:
            rep.violation("floor|impls", "only %d impls of IStable were found" % len(d["impls"]))
        for e, msg in res[prop]:
            rep.violation("%s|%s" % (cname if cname != "default" else "", msg) if cname != "default" else msg, msg + " (impl %s, configuration %s)" % (e["impl"], cname))
        rep.coverage.setdefault("configurations", []).append(cname)
        rep.coverage["types_examined"] = rep.coverage.get("types_examined", 0) + stats["entries"]
    rep.coverage["impls_without_instance"] = sorted(uninst)
    rep.assumptions = [
        "x86_64-unknown-linux-gnu; other targets share the impls but not the sizes",
        "generic impls are decided on the instances of the pools, not for every possible argument",
    ]
    return rep
