"""C08: what exporting emits is what importing and loading look up: same names, signatures, conventions, reports, canaries."""
import re
import common as C
import importrules as I
import paths as P
import p_c07


def norm(sig, drop_unsafe=False):
    s = re.sub(r"for<[^>]*> |'\w+ |'static\b", "", sig)
    if drop_unsafe:
        s = re.sub(r"^unsafe ", "", s)
    return re.sub(r"\s+", " ", s)


def role(sig, target):
    """what a function of this type is to a symbol of type `target`"""
    r = I.ret_of(sig)
    if norm(r) == norm("core::option::Option<%s>" % target) or norm(r) == norm("core::option::Option<unsafe %s>" % target):
        return "checker"
    if norm(r).lstrip("&") == I.REPORT:
        return "report"
    return None


def says():
    """what a canary must spell for two builds that differ in it to have different canaries"""
    import subprocess
    v = subprocess.run(["rustc", "-vV"], capture_output=True, text=True, env=C.env()).stdout
    host = re.search(r"host: (\S+)", v).group(1)
    triple = r".*?".join(re.escape(x) for x in re.split(r"[^A-Za-z0-9]+", host))
    return {"rustc": r"\d+\D\d+\D\d+.*[0-9a-f]{7}", "optlevel": r"optlevel_?[0-3sz]", "debug": r"debug_?([01]|true|false)", "numjobs": r"numjobs_?\d", "target": triple, "host": triple}


def exported(rep, F):
    """each exported function is there under its own name, with its companions"""
    ex, ca, _, _ = I.declared()
    sym = I.symbols(F)
    for n in ex + ca:
        f = sym.get(n)
        rep.count("exported function")
        if f is None:
            rep.violation("export|%s|name" % n, "exporting `%s` does not emit a symbol of that name" % n)
            continue
        if f["name"] != n:
            rep.violation("export|%s|other" % n, "the symbol `%s` is `%s`" % (n, f["path"]))
    for n in ex:
        f = sym.get(n)
        if f is None:
            continue
        others = [g for s, g in sym.items() if s.startswith(n + "_")]
        have = {}
        for g in others:
            r = role(g["fnptr"], f["fnptr"])
            if r:
                have.setdefault(r, []).append(g)
        for r in ("checker", "report"):
            rep.count("companion")
            if r not in have:
                rep.violation("companion|%s|%s" % (n, r), "exporting `%s` emits no %s for a function of its type `%s`" % (n, r, f["fnptr"]))
    for n in ca:
        kinds = {}
        for s, g in sym.items():
            m = re.match(re.escape(n) + r"_canary_([a-z]+)", s)
            if m:
                for k in I.KINDS.values():
                    if s[len(n) + 8:].startswith(k):
                        kinds[k] = g
        for k, want in says().items():
            rep.count("canary value")
            if k in kinds and not re.search(want, kinds[k]["symbol"][len(n):], re.S):
                rep.violation("canary value|%s" % k, "the `%s` canary `%s` does not tell the %s it stands for" % (k, kinds[k]["symbol"], k))
        for k in I.KINDS.values():
            rep.count("canary symbol")
            if k not in kinds:
                rep.violation("canary symbol|%s|%s" % (n, k), "exporting `%s` with canaries emits no `%s` canary" % (n, k))


def imported(rep, F):
    """each import declares the symbols the exporter of the same item emits, with the same types and conventions, in the role it uses them"""
    ex, ca, im, ci = I.declared()
    sym = I.symbols(F)
    ext = {e["path"]: e for e in F.externs if e["crate"] == "witness_exports"}
    have = I.imports(F)
    for mod, n in im:
        h = have.get((mod, n))
        if h is None or not h[1]:
            rep.violation("import|%s" % n, "importing `%s` makes no checked import of that name" % n)
            continue
        sig, args, s = h
        f = sym.get(n)
        if f is None:
            continue
        rep.count("checked import")
        if norm(sig) != norm(f["fnptr"]):
            rep.violation("import|%s|type" % n, "importing `%s` makes a checked import of type `%s`, its exporter's type being `%s`" % (n, sig, f["fnptr"]))
        got = {}
        for a in args:
            if a[0] != "fn":
                continue
            e = ext.get(a[2])
            if e is None:
                rep.violation("import|%s|local" % n, "the checked import of `%s` uses `%s`, which is not an imported symbol" % (n, a[2]))
                continue
            rep.count("imported companion")
            g = sym.get(e["symbol"])
            if g is None or not e["symbol"].startswith(n + "_"):
                rep.violation("import|%s|symbol" % n, "importing `%s` refers to the symbol `%s`, which exporting it does not emit" % (n, e["symbol"]))
                continue
            if g["abi"] != e["abi"] or norm(g["fnptr"], True) != norm(e["fnptr"], True):
                rep.violation("import|%s|companion type" % n, "importing `%s` declares `%s` as `%s`; its exporter defines it as `%s`" % (n, e["symbol"], e["fnptr"], g["fnptr"]))
            r = role(g["fnptr"], f["fnptr"])
            got[r] = e["symbol"]
        for r in ("checker", "report"):
            if r not in got:
                rep.violation("import|%s|%s" % (n, r), "the checked import of `%s` is not given its exporter's %s" % (n, r))
    # symbols an import declares must exist, whatever it does with them
    for e in ext.values():
        rep.count("declared symbol")
        if e["symbol"] not in sym:
            rep.violation("declared|%s" % re.sub(r"\d+", "N", e["symbol"]), "an import refers to the symbol `%s`, which exporting does not emit" % e["symbol"])
    statics = {}
    for mod, name, s in I.import_statics(F):
        if s["sty"].startswith(I.CANARIED + "<"):
            statics.setdefault(mod, []).append(s)
    for mod, n, want in ci:
        for s in statics.get(mod, []):
            for a in I.ctor(F, s, I.CANARIED) or ():
                e = ext.get(a[2]) if a[0] == "fn" else None
                if e is not None and e["symbol"] == n:
                    g = sym.get(n)
                    sig = s["sty"][len(I.CANARIED) + 1:-1]
                    rep.count("canaried import")
                    if g is not None and (norm(sig, True) != norm(g["fnptr"], True) or g["abi"] != e["abi"]):
                        rep.violation("canaried|%s" % n, "importing `%s` with canaries declares it `%s`; it is `%s`" % (n, sig, g["fnptr"]))


def check():
    rep = C.Report("C08", "proof", "join of the exported and imported symbols of the macros' expansions by name, type and convention; dataflow over the published reports and the canary callers")
    F = I.load()
    exported(rep, F)
    I.published(rep, F)
    imported(rep, F)
    I.import_report(rep, F)
    I.canary_caller(rep, F)
    p_c07.libloading(rep, F, lookups_only=True)
    for r, n in (("exported function", 15), ("companion", 16), ("canary symbol", 40), ("canary value", 40), ("published report", 8), ("checked import", 8), ("imported companion", 20), ("declared symbol", 100),
                 ("canaried import", 40), ("canary caller", 40), ("canary reference", 100), ("looked-up name", 30)):
        rep.floor(r, n)
    rep.coverage["symbols exported by the witness"] = len(I.symbols(F))
    rep.assumptions += ["the witness's 18 exported signatures and all 64 canary selections stand for every exported function: the macros treat types as opaque tokens",
                        "canary symbols carry the compiler's own name in the build that is analysed; exporter and importer are compared within one build"]
    return rep
