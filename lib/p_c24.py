"""C24: layouts, reports and identifiers are the same under every configuration of the library."""
import concurrent.futures as cf
import multiprocessing as mp
import os
import common as C

W = os.path.join(C.ROOT, "witness", "config")
PARTS = "stable,oneat,reports,decl,ids,slim"
# name -> (cargo features, RUSTFLAGS, cargo arguments, nightly)
BASE = "default features, debug build"
CONFIGS = {
    BASE: ("std", "", (), False),
    "every feature": ("std,ctypes,libc,serde,libloading", "", (), False),
    "no std, libc allocator": ("libc", "", (), False),
    "no std, vtables in no_alloc mode": ("alloc-rs", '--cfg stabby_vtables="no_alloc"', (), False),
    "release build, vtables in btree mode, 12 tuples": ("std", '--cfg stabby_vtables="btree" --cfg stabby_max_tuple="12"', ("--release",), False),
    "vtables in vec mode, libc by default, checked unreachable": (
        "std,libc", '--cfg stabby_vtables="vec" --cfg stabby_check_unreachable="true" --cfg stabby_default_alloc="LibcAlloc"', (), False),
    "unsafe wakers, nightly compiler": ("std", '--cfg stabby_unsafe_wakers="true"', (), True),
}
# configurations documented to replace a type by another one: its report must then differ
REPLACED = {"unsafe wakers, nightly compiler": ("stabby_abi::future::stable_waker::",)}


def one(name, parts=PARTS):
    feats, flags, args, nightly = CONFIGS[name]
    i = list(CONFIGS).index(name)
    extra = {"RUSTFLAGS": flags} if flags else {}
    if nightly:
        extra["VERIF_AS_NIGHTLY"] = "1"
    d, _ = C.run_driver(W, ["witness_config"], "layout", parts, features=feats, extra=extra, target="config%d" % i, cargo_args=args)
    return d.get("witness_config.layout.json")


def index(d):
    """type -> what its binary interface consists of, with reports expanded to hashable terms"""
    done = {}

    def term(j):
        if isinstance(j, dict):
            if "report" in j and len(j) == 1:
                i = j["report"]
                if i not in done:
                    done[i] = ("cycle", i)
                    done[i] = hash(term(d["reports"][i]))
                return ("report", done[i])
            return tuple((k, term(v)) for k, v in sorted(j.items()))
        if isinstance(j, list):
            return tuple(term(x) for x in j)
        return j

    out = {}
    for e in d["entries"]:
        decl = e.get("decl") or {}
        out[e["s"]] = {
            "size": e.get("size"), "alignment": e.get("align"), "advertised layout": term(e.get("claims")),
            "report": term(e.get("report")), "identifier": term(e.get("id")),
            "declared representation": (decl.get("kind"), decl.get("repr"), term([[v[0], [f[:2] for f in v[1]]] for v in decl.get("variants", [])])),
        }
    return out


def child(name):
    import sys
    sys.setrecursionlimit(20000)
    try:
        return name, index(one(name)), None
    except C.Rejected as e:
        return name, None, (str(e), e.log[-3000:])


def warm():
    C.ensure_driver()
    with cf.ThreadPoolExecutor(len(CONFIGS)) as ex:
        list(ex.map(lambda n: one(n, ""), CONFIGS))


def check():
    C.ensure_driver()
    rep = C.Report("C24", "other", "type-level queries under several configurations: the compiler's layouts and the evaluated "
                   "associated types, reports and identifiers of the same types, compared")
    with mp.get_context("fork").Pool(len(CONFIGS)) as p:
        res = {n: (i, err) for n, i, err in p.map(child, list(CONFIGS), chunksize=1)}
    if res[BASE][1]:
        ok, log = C.repo_compiles()
        if not ok:
            raise C.ToolError("the library does not compile:\n" + log[-3000:])
        raise C.Rejected(*res[BASE][1])
    base = res[BASE][0]
    for name in CONFIGS:
        if name == BASE:
            continue
        idx, err = res[name]
        if err:
            rep.count("configuration")
            rep.violation("config|" + name, "the types of the witness do not compile under the configuration '%s': %s" % (name, err[1][-600:]))
            continue
        rep.count("configuration")
        for s, b in base.items():
            o = idx.get(s)
            if o is None:
                continue
            repl = any(p in s for p in REPLACED.get(name, ()))
            if repl:
                rep.count("replaced type")
                if b["report"] == o["report"] and any(b[k] != o[k] for k in b if k != "report"):
                    rep.violation("replaced|%s|%s" % (name, s), "`%s` is laid out differently under '%s' and its report does not tell" % (s, name))
                continue
            for k in b:
                if k == "identifier" and (b[k] is None or o[k] is None):
                    continue
                rep.count(k)
                if b[k] != o[k]:
                    x, y = (b[k], o[k]) if k in ("size", "alignment") else ("", "")
                    rep.violation("%s|%s|%s" % (k, name, s), "the %s of `%s` differs between '%s' and '%s' %s" % (
                        k, s, BASE, name, "(%s, %s)" % (x, y) if k in ("size", "alignment") else ""))
        missing = [s for s in base if s not in idx]
        rep.coverage.setdefault("types absent from a configuration", {})[name] = len(missing)
        mine = [s for s in missing if s.startswith("witness_config::")]
        if mine:
            rep.violation("absent|%s|%s" % (name, mine[0]), "`%s` is ABI-stable under '%s' and not under '%s'" % (mine[0], BASE, name))
        if len(missing) > 800:
            rep.violation("absent|" + name, "%d of the %d types compared are no longer ABI-stable under '%s', such as `%s`" % (len(missing), len(base), name, missing[0]))
    for rule, n in (("configuration", 6), ("size", 20000), ("report", 20000), ("identifier", 200)):
        rep.floor(rule, n)
    rep.coverage["types"] = len(base)
    rep.coverage["configurations"] = {n: list(map(str, c)) for n, c in CONFIGS.items()}
    rep.coverage["decided"] = rep.obligations
    rep.assumptions += ["seven configurations, chosen so that every feature and cfg of the library is switched at least once, on one target",
                        "under stabby_unsafe_wakers the waker types are replaced, as documented; their reports must differ if their layout does",
                        "generic impls are evaluated with each parameter varied over the argument pools of witness/config"]
    return rep
