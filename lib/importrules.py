"""Rules over imports and exports: what the macros expand to, what the checked imports and the dynamic loader do."""
import os
import re
import common as C
import facts
import paths as P

W = os.path.join(C.ROOT, "witness", "exports")
KINDS = {"rustc": "rustc", "opt_level": "optlevel", "debug": "debug", "num_jobs": "numjobs", "target": "target", "host": "host"}
REPORT = "stabby_abi::report::TypeReport"
_f = None


def load():
    global _f
    if _f is None:
        _f = facts.load_with(W, "witness_exports", "exports")
    return _f


def warm():
    C.run_driver(W, ["witness_exports"], "facts", target="exports")


def declared():
    """What the witness source exports and imports, read from its text."""
    src = open(os.path.join(W, "src", "lib.rs")).read()
    ex, ca, im, ci = [], [], [], []
    for m in re.finditer(r"#\[stabby::export(\(canaries\))?\] pub .*?fn (\w+)\(", src):
        (ca if m.group(1) else ex).append(m.group(2))
    for m in re.finditer(r'#\[stabby::import\((.*?)\)\] extern "[\w-]+" \{(.*?)\}', src):
        names = re.findall(r"pub (?:unsafe )?fn (\w+)\(", m.group(2))
        c = re.search(r'canaries = "(.*?)"', m.group(1))
        # the module it is written in
        mod = src[:m.start()].rfind("pub mod ")
        mod = re.match(r"pub mod (\w+)", src[mod:]).group(1)
        for n in names:
            if c:
                spec = c.group(1)
                want = set(KINDS) if spec in ("", "paranoid") else set() if spec == "none" else set(x.strip() for x in spec.split(","))
                ci.append((mod, n, want))
            else:
                im.append((mod, n))
    return ex, ca, im, ci


def witness(F):
    return [f for f in F.fns if f["crate"] == "witness_exports"]


def symbols(F):
    return {f["symbol"]: f for f in witness(F) if f.get("symbol")}


def fnptr(sig):
    return re.sub(r"^for<[^>]*> ", "", sig)


def ret_of(sig):
    """the type a printed function signature returns"""
    depth = 0
    i = sig.index("fn(") + 2
    for j in range(i, len(sig)):
        if sig[j] in "(<[":
            depth += 1
        elif sig[j] in ")]" or (sig[j] == ">" and sig[j - 1] != "-"):
            depth -= 1
            if depth == 0:
                rest = sig[j + 1:].strip()
                return rest[2:].strip() if rest.startswith("->") else "()"
    return "?"


def is_report_of(t, sig):
    """is the term `<sig as IStable>::REPORT`?"""
    if t[0] != "k":
        return None
    m = re.match(r"^<(.*) as stabby_abi::(istable::)?IStable>::REPORT$", t[1])
    if not m:
        return None
    norm = lambda s: re.sub(r"'\w+ |for<[^>]*> |'static\b|\s", "", s)
    return norm(m.group(1)) == norm(sig)


def some_of(v):
    if v and v[0] == "agg" and v[2] == "core::option::Option":
        return v[5][0] if v[4] == "Some" else None
    return False


IS_COMPATIBLE = (REPORT + "::is_compatible",)


def export_gate(rep, F, rule="export gate"):
    """`{f}_stabbied` returns f exactly where f's own report accepted the importer's."""
    ex, _, _, _ = declared()
    sym = symbols(F)
    E = P.Engine(F, pure=IS_COMPATIBLE, inline=lambda fn, c: c.path not in IS_COMPATIBLE)
    for n in ex:
        f = sym.get(n)
        if f is None:
            continue
        sig = f["fnptr"]
        gates = [g for s, g in sym.items() if s.startswith(n + "_") and ret_of(g["fnptr"]).replace(" ", "") == ("core::option::Option<%s>" % sig).replace(" ", "")]
        rep.count(rule)
        if not gates:
            rep.violation("%s|%s|none" % (rule, n), "exporting `%s` emits no function that hands it out after comparing reports" % n)
            continue
        for g in gates:
            try:
                outs = E.run(g)
            except P.TooMany:
                continue
            handed = 0
            for o in outs:
                if o.kind != "return":
                    continue
                x = some_of(o.val)
                if x is False:
                    rep.violation("%s|%s|opaque" % (rule, n), "what `%s` returns cannot be told: %s" % (g["path"], P.show(o.val)))
                    continue
                if x is None:
                    continue
                handed += 1
                if not (x[0] == "fn" and x[2] == f["path"]):
                    rep.violation("%s|%s|other" % (rule, n), "`%s` hands out %s instead of `%s`" % (g["path"], P.show(x), n))
                ok = False
                for t, v in o.st.lits.items():
                    if t[0] == "p" and t[1] in IS_COMPATIBLE and v == 1:
                        a, b = t[2], t[3]
                        if {("arg", 1)} == {a, b} - {y for y in (a, b) if is_report_of(y, sig)}:
                            ok = True
                if not ok:
                    rep.violation("%s|%s|unchecked" % (rule, n), "`%s` hands out `%s` on a path where %s's report has not been found compatible with the "
                                  "importer's (decided there: %s)" % (g["path"], n, n, "; ".join("%s = %s" % (P.show(t), v) for t, v in o.st.lits.items()) or "nothing"))
            if not handed:
                rep.violation("%s|%s|never" % (rule, n), "`%s` never hands out `%s`" % (g["path"], n))


def published(rep, F, rule="published report"):
    ex, _, _, _ = declared()
    sym = symbols(F)
    E = P.Engine(F)
    for n in ex:
        f = sym.get(n)
        if f is None:
            continue
        sig = f["fnptr"]
        rs = [g for s, g in sym.items() if s.startswith(n + "_") and ret_of(g["fnptr"]).endswith(REPORT)]
        rep.count(rule)
        if not rs:
            rep.violation("%s|%s|none" % (rule, n), "exporting `%s` emits no function publishing its report" % n)
        for g in rs:
            for o in E.run(g):
                if o.kind == "return" and not is_report_of(o.val, sig):
                    rep.violation("%s|%s|other" % (rule, n), "`%s` publishes %s, not the report of `%s`" % (g["path"], P.show(o.val), sig))


def import_statics(F):
    """(module, name, static) of the checked and canaried imports of the witness."""
    for s in F.statics:
        if s["crate"] != "witness_exports":
            continue
        parts = s["path"].split("::")
        yield parts[-3] if len(parts) > 2 else "", s["name"], s


def ctor(F, s, what):
    """arguments of the constructor call that initialises a static"""
    E = P.Engine(F, inline=lambda fn, c: False)
    fn = {"key": s["key"], "path": s["path"], "body": s["body"], "T": s["T"]}
    for o in E.run(fn, args=[]):
        if o.kind == "return":
            for ev in o.st.events():
                if ev[0] == "call" and ev[1].startswith(what) and ev[1].endswith("::new"):
                    return ev[2]
    return None


CHECKED, CANARIED = "stabby_abi::checked_import::CheckedImport", "stabby_abi::checked_import::CanariedImport"


def imports(F):
    """(mod, name, target fn-pointer type, constructor args) of each checked import"""
    out = {}
    for mod, name, s in import_statics(F):
        m = re.match(re.escape(CHECKED) + "<(.*)>$", s["sty"])
        if m:
            out[(mod, name)] = (m.group(1), ctor(F, s, CHECKED), s)
    return out


def import_report(rep, F, rule="import's own report"):
    _, _, im, _ = declared()
    have = imports(F)
    for mod, n in im:
        rep.count(rule)
        h = have.get((mod, n))
        if h is None:
            rep.violation("%s|%s|none" % (rule, n), "importing `%s` makes no checked import of that name" % n)
            continue
        sig, args, s = h
        if not args:
            rep.violation("%s|%s|init" % (rule, n), "the checked import of `%s` is not built by CheckedImport::new" % n)
            continue
        if not any(is_report_of(a, sig) for a in args):
            rep.violation("%s|%s|other" % (rule, n), "the checked import of `%s` compares %s, not the report of its own type `%s`" % (
                n, ", ".join(P.show(a) for a in args), sig))


def canary_caller(rep, F, rule="canary caller"):
    """The function a canaried import calls refers to every canary its author asked for."""
    _, ca, _, ci = declared()
    sym = symbols(F)
    ext = {e["path"]: e for e in F.externs if e["crate"] == "witness_exports"}
    statics = {}
    for mod, name, s in import_statics(F):
        if s["sty"].startswith(CANARIED + "<"):
            statics.setdefault(mod, []).append(s)
    E = P.Engine(F)
    bypath = {f["path"]: f for f in witness(F)}
    for mod, n, want in ci:
        rep.count(rule)
        hit = None
        for s in statics.get(mod, []):
            args = ctor(F, s, CANARIED) or ()
            fns = [a for a in args if a[0] == "fn"]
            if any(ext.get(a[2], {}).get("symbol") == n for a in fns):
                hit = (s, [a for a in fns if a[2] not in ext])
        if hit is None:
            rep.violation("%s|%s" % (rule, n), "importing `%s` with canaries makes no canaried import of that symbol" % n)
            continue
        s, callers = hit
        called = set()
        always = None
        for a in callers:
            f = bypath.get(a[2])
            if f is None:
                continue
            for o in E.run(f):
                if o.kind == "return":
                    cs = {ext[e[1]]["symbol"] for e in o.st.events() if e[0] == "call" and e[1] in ext}
                    always = cs if always is None else always & cs
        called = always or set()
        for k in sorted(want):
            target = [x for x in sym if x.startswith(n + "_canary_" + KINDS[k])]
            if not target:
                rep.violation("%s|export|%s" % (rule, k), "exporting `%s` with canaries emits no `%s` canary" % (n, k))
            elif not set(target) & called:
                rep.violation("%s|%s" % (rule, k), "importing `%s` with the `%s` canary does not refer to the symbol `%s` its exporter emits (it refers to: %s)" % (
                    n, k, target[0], ", ".join(sorted(called)) or "nothing"))
        rep.count("canary reference", len(want))
