"""C07: a checked symbol is only handed out after its report, or its canaries, were accepted."""
import re
import common as C
import importrules as I
import paths as P
import p_c06c

MOD = "stabby_abi::checked_import"


def field_roles(adt):
    T = adt["T"]
    out = {}
    for i, f in enumerate(adt["variants"][0]["fields"]):
        s = T[f["t"]]["s"]
        if "TypeReport" in s and "fn(" in s:
            out["checker" if "Option" in s else "get_report"] = i
        elif "TypeReport" in s:
            out["local_report"] = i
        elif "fn(" in s:
            out["canary"] = i
        elif "Atomic" in s:
            out["checked"] = i
        else:
            out["result"] = i
    return out


def succeeded(st, r):
    """whether the compare-exchange whose result is `r` succeeded on this path: True, False or None"""
    d = ("discr", r)
    for t, v in st.lits.items():
        if t == d:
            return v == 0 if isinstance(v, int) else (False if 0 in v else None)
        if t[0] == "op" and t[1] == "Eq" and d in t[2:] and isinstance(v, int):
            o = t[3] if t[2] == d else t[2]
            if o[0] == "c":
                return (v == 1) == (o[1] == 0)
    return None


def known(st, r, universe):
    """the values an integer may have on this path, out of `universe`"""
    vals = set(universe)
    for t, v in st.lits.items():
        if t == r:
            vals &= {v} if isinstance(v, int) else vals - set(v)
        elif t[0] == "op" and t[1] in ("Eq", "Ne") and r in t[2:] and isinstance(v, int):
            o = t[3] if t[2] == r else t[2]
            if o[0] == "c":
                if (v == 1) == (t[1] == "Eq"):
                    vals &= {o[1]}
                else:
                    vals -= {o[1]}
    return vals


def mentions(t, pred):
    if not isinstance(t, tuple):
        return False
    if pred(t):
        return True
    return any(mentions(x, pred) for x in t if isinstance(x, tuple))


def owner(t, ptrs, f):
    """does the term designate field f of one of the objects `ptrs` point to?"""
    def p(x):
        if not x or not isinstance(x[0], str):
            return False
        return (x[0] == "ref" and len(x) == 3 and x[1] in [("M", q) for q in ptrs] and x[2][:1] == (("f", f),)) or \
               (x[0] == "ld" and len(x) == 3 and x[1] in ptrs and x[2][:1] == (("f", f),))
    return mentions(t, p)


def roots(F, adt):
    for f in F.fns:
        if not f.get("body") or f["crate"] == "witness_exports":
            continue
        T = f["T"]
        if not any(("%s<" % adt) in T[i]["s"] for i in f.get("inputs", [])):
            continue
        im = f.get("impl") or {}
        if f.get("unsafe"):
            continue
        if f.get("pub") or im.get("trait"):
            yield f


ATOMIC = re.compile(r"::(load|store|swap|compare_exchange|compare_exchange_weak|fetch_\w+|new|get_mut|into_inner|fetch_update|as_ptr)$")


def atomic_events(o, ptrs, checked):
    """(position, operation, arguments, result) of the accesses to the state on a path"""
    for i, e in enumerate(o.st.events()):
        if e[0] == "call" and "sync::atomic" in e[1] and e[2] and owner(e[2][0], ptrs, checked):
            yield i, e[1].rsplit("::", 1)[-1], e[2][1:], e[3]


def checked_import(rep, F):
    adt = F.adt.get(MOD + "::CheckedImport")
    if adt is None:
        rep.violation("anchor|CheckedImport", "CheckedImport is gone")
        return
    R = field_roles(adt)
    if not {"checker", "get_report", "local_report", "checked", "result"} <= set(R):
        rep.violation("anchor|fields", "CheckedImport no longer holds a checker, both reports, a state and the symbol: found %s" % sorted(R))
        return
    E = P.Engine(F, loops=2)
    ptrs = [("arg", 1)]
    paths = []
    initial = set()
    for f in F.fns:
        if f.get("body") and f["crate"] == "stabby_abi" and (f.get("impl") or {}).get("self") is not None and f["T"][f["impl"]["self"]]["s"].startswith(MOD + "::CheckedImport<") \
                and f["T"][f["output"]]["s"].startswith(MOD + "::CheckedImport<"):
            for o in E.run(f):
                if o.kind != "return" or o.val[0] != "agg":
                    continue
                s = o.val[5][R["checked"]]
                rep.count("initial state")
                for e in o.st.events():
                    if e[0] == "call" and e[3] == s and e[2] and e[2][0][0] == "c":
                        initial.add(e[2][0][1])
                for role in ("checker", "get_report", "local_report"):
                    n = [i for i in range(len(f["inputs"])) if ("arg", i + 1) == o.val[5][R[role]]]
                    want = {"checker": lambda s: "Option" in s and "fn(" in s, "get_report": lambda s: "fn(" in s and "Option" not in s,
                            "local_report": lambda s: "fn(" not in s}[role]
                    if not n or not want(f["T"][f["inputs"][n[0]]]["s"]):
                        rep.violation("constructor|%s" % role, "`%s` does not keep its %s argument" % (f["path"], role))
    for f in roots(F, MOD + "::CheckedImport"):
        try:
            outs = E.run(f)
        except P.TooMany:
            continue
        for o in outs:
            paths.append((f, o))
    rep.coverage["functions of CheckedImport"] = sorted({f["path"] for f, _ in paths})
    # every constant ever recorded as state
    consts = set(initial)
    for f, o in paths:
        for i, op, args, r in atomic_events(o, ptrs, R["checked"]):
            if op == "store" or op == "swap":
                consts |= {args[0][1]} if args[0][0] == "c" else set()
            elif op.startswith("compare_exchange"):
                consts |= {a[1] for a in args[:2] if a[0] == "c"}

    def accepted(o, pos):
        """checker(local_report) gave Some(x) and x was written to the symbol's place before event `pos`, by whoever won the state"""
        evs = o.st.events()
        for i, e in enumerate(evs[:pos]):
            if e[0] != "write" or e[1] not in [("M", q) for q in ptrs] or e[2][:1] != (("f", R["result"]),):
                continue
            x = e[3]
            if x[0] == "pj" and x[2] == ("f", 0):
                c = x[1]
                if c[0] == "pj" and c[2][0] == "v":
                    c = c[1]
                for g in evs[:i]:
                    if g[0] == "call" and g[3] == c and g[1] == "<indirect>" and owner(g[4].fv, ptrs, R["checker"]):
                        if g[2] and owner(g[2][0], ptrs, R["local_report"]) and o.st.lits.get(("discr", c)) == 1:
                            return True
        return False

    def uses(o):
        """positions where the symbol is handed out (the end of the path) or consumed"""
        evs = o.st.events()
        for i, e in enumerate(evs):
            if e[0] == "drop" and e[1] in [("M", q) for q in ptrs] and e[2][:1] == (("f", R["result"]),):
                yield i, "dropped"
            elif e[0] == "drop" and owner(("x", e[3]), ptrs, R["result"]):
                yield i, "dropped"
            elif e[0] == "call" and "::write" not in e[1] and any(owner(a, ptrs, R["result"]) for a in e[2]):
                yield i, "passed to " + e[1]
        if o.kind == "return" and o.val is not None and owner(("x", o.val), ptrs, R["result"]):
            yield len(evs), "handed out"

    validated = set()
    for f, o in paths:
        for pos, how in uses(o):
            rep.count("symbol use")
            if accepted(o, pos):
                continue
            seen = None
            for i, op, args, r in atomic_events(o, ptrs, R["checked"]):
                if i < pos and op in ("load", "swap"):
                    v = known(o.st, r, consts)
                    if v and v < consts:
                        seen = v  # the last observation counts: the state moves on
            # with exclusive access the state is read through a plain reference
            for t in list(o.st.lits):
                if seen is None and owner(("x", t), ptrs, R["checked"]):
                    for x in subterms(t):
                        if x[0] == "ld" and x[1] in ptrs and x[2][:1] == (("f", R["checked"]),):
                            seen = known(o.st, x, consts)
            if not seen:
                rep.violation("unvalidated|%s|%s" % (f["path"], how), "in `%s` the symbol is %s on a path where neither the checker accepted the local report nor the state says so (decided: %s)" % (
                    f["path"], how, "; ".join("%s = %s" % (P.show(t), v) for t, v in o.st.lits.items()) or "nothing"))
            else:
                validated |= seen
    if initial & validated or not initial:
        rep.violation("initial", "a new CheckedImport starts in the state (%s) in which its symbol may be used (%s)" % (sorted(initial), sorted(validated)))
    for f, o in paths:
        for i, op, args, r in atomic_events(o, ptrs, R["checked"]):
            if op in ("store", "swap"):
                vals = {args[0][1]} if args[0][0] == "c" else None
            elif op.startswith("compare_exchange"):
                vals = {args[1][1]} if args[1][0] == "c" else None
                if succeeded(o.st, r) is False:
                    continue
            elif op in ("load",):
                continue
            else:
                vals = None
            rep.count("state change")
            if vals is None or vals & validated:
                if not accepted(o, i):
                    rep.violation("state|%s|%s" % (f["path"], op), "`%s` records the symbol as validated on a path where the checker has not accepted the local report and the symbol has not been written" % f["path"])
        # whoever writes the symbol has won the state from somebody else
        for i, e in enumerate(o.st.events()):
            if e[0] == "write" and e[1] in [("M", q) for q in ptrs] and e[2][:1] == (("f", R["result"]),):
                rep.count("symbol write")
                won = False
                for j, op, args, r in atomic_events(o, ptrs, R["checked"]):
                    if j < i and op.startswith("compare_exchange") and succeeded(o.st, r) is True and args[0] != args[1] \
                            and not (args[1][0] == "c" and args[1][1] in validated | initial) and not (args[0][0] == "c" and args[0][1] in validated):
                        won = True
                    if j < i and op == "swap" and args[0][0] == "c" and args[0][1] not in known(o.st, r, consts) and not args[0][1] in validated | initial:
                        won = True
                recv = f.get("recv")
                if recv and recv[1]:
                    won = True
                if not won:
                    rep.violation("race|" + f["path"], "`%s` writes the symbol on a path where it has not taken the state for itself: another thread may be using it" % f["path"])
        # errors carry both reports
        if o.kind == "return" and o.val and o.val[0] == "agg" and o.val[2] == "core::result::Result" and o.val[4] == "Err":
            rep.count("mismatch error")
            x = ("x", o.val)
            loaded = [e[3] for e in o.st.events() if e[0] == "call" and e[1] == "<indirect>" and owner(e[4].fv, ptrs, R["get_report"])]
            err = F.adt.get(MOD + "::ReportMismatch")
            v = o.val[5][0]
            if not owner(x, ptrs, R["local_report"]) or not any(mentions(x, lambda t: t == l) for l in loaded):
                rep.violation("error|" + f["path"], "`%s` returns an error without both reports: %s" % (f["path"], P.show(o.val)))
            elif err and v[0] == "agg" and v[2] == err["path"]:
                for i, fd in enumerate(err["variants"][0]["fields"]):
                    want = {"local": owner(("x", v[5][i]), ptrs, R["local_report"]), "loaded": v[5][i] in loaded}.get(fd["name"])
                    if want is False:
                        rep.violation("error|" + fd["name"], "the mismatch's `%s` report is %s" % (fd["name"], P.show(v[5][i])))
    if not validated:
        rep.violation("anchor|validated", "no state in which a CheckedImport hands out its symbol was found")
    rep.coverage["states in which the symbol may be used"] = sorted(validated)


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


def canaried_import(rep, F):
    adt = F.adt.get(MOD + "::CanariedImport")
    if adt is None:
        rep.violation("anchor|CanariedImport", "CanariedImport is gone")
        return
    R = field_roles(adt)
    if not {"checked", "canary", "result"} <= set(R):
        return rep.violation("anchor|canaried fields", "CanariedImport no longer holds a state, a canary and the symbol")
    E = P.Engine(F)
    initial = set()
    new = None
    for f in F.fns:
        if f.get("body") and f["path"].startswith(MOD + "::CanariedImport") and f["T"][f["output"]]["s"].startswith(MOD + "::CanariedImport<"):
            for o in E.run(f):
                if o.kind == "return" and o.val[0] == "agg":
                    new = f
                    s = o.val[5][R["checked"]]
                    initial |= {e[2][0][1] for e in o.st.events() if e[0] == "call" and e[3] == s and e[2] and e[2][0][0] == "c"}
    consts = set(initial)
    paths = [(f, o) for f in roots(F, MOD + "::CanariedImport") for o in E.run(f)]
    for f, o in paths:
        for i, op, args, r in atomic_events(o, [("arg", 1)], R["checked"]):
            consts |= {a[1] for a in args if a[0] == "c"}
    if new is None or not initial:
        return rep.violation("anchor|canaried constructor", "the constructor of CanariedImport cannot be analysed")
    for f, o in paths:
        if o.kind != "return" or o.val is None:
            continue
        called = any(e[0] == "call" and e[1] == "<indirect>" and owner(("x", e[4].fv), [("arg", 1)], R["canary"]) for e in o.st.events())
        ops = list(atomic_events(o, [("arg", 1)], R["checked"]))
        first = False
        for i, op, args, r in ops:
            if op in ("swap", "load") and not (initial & known(o.st, r, consts)):
                first = True
        if owner(("x", o.val), [("arg", 1)], R["result"]):
            rep.count("canaried symbol use")
            if not called and not first:
                rep.violation("canary|" + f["path"], "`%s` hands out the symbol on a path where its canaries are neither called nor known to have been" % f["path"])


# ---------------------------------------------------------------- dynamic loading
def lib_hook(fr, st, c):
    p = c.rpath or c.path
    n = p.rsplit("::", 1)[-1]

    def value(a):
        for _ in range(4):
            if a[0] == "ref":
                v = st.read(a[1], a[2])
                if v[0] in ("undef",):
                    return a
                a = v
            else:
                break
        return a

    if n == "concat" and "slice" in p:
        v = value(c.args[0])
        if v[0] == "agg" and v[1] == "array":
            return P.ret(st, ("p", "concat") + tuple(value(x) for x in v[5]))
    if n in ("deref", "as_ref", "borrow", "as_slice") and c.args:
        v = value(c.args[0])
        if v[0] == "p" and v[1] in ("concat", "get", "getok"):
            return P.ret(st, v)
        if v[0] in ("pj", "r"):
            return P.ret(st, v)
    if n in ("as_bytes",):
        return P.ret(st, value(c.args[0]))
    if "Library::get" in p and "libloading" in p and n == "get":
        i = st.fresh()
        r = ("r", i, "libloading::get")
        st.event(("get", value(c.args[0]), value(c.args[1]), r, c))
        return P.ret(st, r)
    return None


def bytes_of(t):
    """the text of a constant byte or character string"""
    if t[0] != "k":
        return None
    s = t[1]
    m = re.match(r'^\*?b?"(.*)"$', s)
    return m.group(1) if m else s


def base(x):
    """what a projection starts from"""
    while x[0] == "pj" or (x[0] == "ld" and len(x) == 3):
        x = x[1]
    return x


def libloading(rep, F, lookups_only=False):
    real, rep = rep, C.Report(rep.prop, rep.level, rep.technique) if lookups_only else rep
    _libloading(rep, F)
    if real is not rep:
        for k, m in rep.violations:
            if k.startswith("lookup|"):
                real.violation(k, m)
        real.count("looked-up name", rep.rules.get("looked-up name", 0))


def _libloading(rep, F):
    sym = I.symbols(F)
    ex, ca, _, _ = I.declared()
    E = P.Engine(F, hook=lib_hook, loops=2)
    found = {"get_stabbied": 0, "get_canaried": 0}
    for f in F.fns:
        if f["crate"] != "stabby" or not f.get("body") or (f.get("impl") or {}).get("trait") != "stabby::libloading::StabbyLibrary":
            continue
        if f["name"] not in found:
            continue
        outs = E.run(f)
        for o in outs:
            if o.kind != "return":
                continue
            if not (o.val[0] == "agg" and o.val[2] == "core::result::Result"):
                rep.count("loader path")
                rep.violation("loader|%s|opaque" % f["name"], "`%s` returns something that cannot be told to be an error or a symbol: %s" % (f["name"], P.show(o.val)))
                continue
            rep.count("loader path")
            if o.val[4] != "Ok":
                for e in o.st.events():
                    if e[0] == "get":
                        lookup(rep, e, sym, ex if f["name"] == "get_stabbied" else ca)
                continue
            found[f["name"]] += 1
            gets = {e[3]: e for e in o.st.events() if e[0] == "get"}
            for e in gets.values():
                lookup(rep, e, sym, ex if f["name"] == "get_stabbied" else ca)
            okget = lambda r: o.st.lits.get(("discr", r)) == 0 and gets[r][1] == ("arg", 1)
            x = o.val[5][0]
            if f["name"] == "get_stabbied":
                inner = [y for y in (x[5] if x[0] == "agg" else (x,)) if y[0] == "pj"]
                good = False
                for y in inner:
                    c = base(y)
                    for e in o.st.events():
                        if e[0] == "call" and e[3] == c and e[1] == "<indirect>":
                            src = base(e[4].fv)
                            rpt = e[2] and e[2][0][0] == "k" and re.match(r"^<T as stabby_abi::(istable::)?IStable>::REPORT$", e[2][0][1])
                            if src in gets and okget(src) and rpt and o.st.lits.get(("discr", c)) == 1:
                                good = True
                                name(rep, gets[src][2], sym, ex, "checked", lambda g, n: I.ret_of(g["fnptr"]).startswith("core::option::Option<"))
                if not good:
                    rep.violation("loader|get_stabbied|unchecked", "`get_stabbied` returns %s on a path where the library's checker has not accepted the loader's report (decided: %s)" % (
                        P.show(x), "; ".join("%s = %s" % (P.show(t), v) for t, v in o.st.lits.items())))
            else:
                src = base(x)
                if src not in gets or not okget(src) or gets[src][2] != ("arg", 2):
                    rep.violation("loader|get_canaried|symbol", "`get_canaried` returns %s, not the symbol it was asked for" % P.show(x))
                canary_path(rep, f, o, gets, okget, sym, ca)
    for n, k in found.items():
        if not k:
            rep.violation("anchor|" + n, "no path of `%s` returning a symbol was found" % n)


def lookup(rep, e, sym, names):
    """a name looked up with a type: the exporter emits it, with that type"""
    t = e[2]
    if t[0] != "p" or t[1] != "concat" or len(t) != 4 or t[2] != ("arg", 2):
        return
    suf = bytes_of(t[3])
    ty = [x for x in e[4].info.tyargs() if "fn(" in x]
    if suf is None or not ty or "TypeReport" not in ty[0]:
        return
    norm = lambda s: re.sub(r"for<[^>]*> |'\w+ |\bunsafe |\s", "", s)
    rep.count("looked-up type", len(names))
    for n in names:
        g, f = sym.get(n + suf), sym.get(n)
        if f is None:
            continue
        want = re.sub(r"\bT\b", lambda m: f["fnptr"], ty[0])
        if g is None or norm(g["fnptr"]) != norm(want):
            rep.violation("lookup|type|" + suf, "the loader looks `<name>%s` up as `%s`; exporting `%s` %s" % (suf, ty[0], n, "emits it as `%s`" % g["fnptr"] if g else "does not emit it"))
            break


def name(rep, t, sym, ex, what, pred):
    """the looked-up name, applied to each exported function, designates the companion it must"""
    if t[0] != "p" or t[1] != "concat" or len(t) != 4 or t[2] != ("arg", 2):
        return None
    suf = bytes_of(t[3])
    if suf is None:
        return None
    rep.count("looked-up name", len(ex))
    for n in ex:
        g = sym.get(n + suf)
        if g is None or not pred(g, n):
            rep.violation("lookup|%s|%s" % (what, suf), "the loader looks `<name>%s` up, which exporting `%s` does not emit as its %s companion" % (suf, n, what))
            break
    return suf


REQUIRED = ("rustc", "opt_level", "debug", "target", "num_jobs")


def canary_path(rep, f, o, gets, okget, sym, ca):
    evs = o.st.events()
    got = set()
    loops = {}
    adaptor = False
    for e in evs:
        if e[0] == "get" and e[2][0] == "p" and e[2][1] == "concat" and e[2][2] == ("arg", 2) and okget(e[3]):
            b = e[2][3]
            t = bytes_of(b)
            if t is not None:
                got.add(t)
            elif base(b)[0] == "r":
                loops.setdefault("checked", set()).add(base(b))
        if e[0] == "call" and e[1].endswith("Iterator::next"):
            loops.setdefault("next", []).append(e[3])
        if e[0] == "call" and e[1].endswith(("into_iter", "::iter")):
            a = e[2][0]
            if a[0] == "ref":
                a = o.st.read(a[1], a[2])
            if a[0] == "agg" and a[1] == "array":
                loops["array"] = [bytes_of(x) for x in a[5]]
        if e[0] == "call" and any(x[0] == "agg" and x[1] == "closure" for x in e[2]):
            adaptor = True
    if adaptor:
        rep.coverage["undecided canary paths"] = rep.coverage.get("undecided canary paths", 0) + 1
        return
    nx = loops.get("next", [])
    items = [r for r in nx if o.st.lits.get(("discr", r)) == 1]
    if items and not set(items) <= loops.get("checked", set()):
        rep.violation("loader|get_canaried|missing", "`get_canaried` returns the symbol on a path where a canary it iterates over was not found in the library")
        return
    if nx and o.st.lits.get(("discr", nx[-1])) == 0 and loops.get("array"):
        if not items:
            # zero iterations: whatever the body checks is checked for each element on the other paths
            return
        got |= {x for x in loops["array"] if x}
    rep.count("canary path")
    for k in REQUIRED:
        if not any(x.startswith("_canary_" + I.KINDS[k]) for x in got):
            rep.violation("loader|get_canaried|" + k, "`get_canaried` returns the symbol on a path where the `%s` canary was not looked up" % k)
    for x in sorted(got):
        rep.count("looked-up name", len(ca))
        for n in ca:
            if n + x not in sym:
                rep.violation("lookup|canary|" + x, "the loader looks `<name>%s` up, which exporting `%s` with canaries does not emit" % (x, n))
                break


def check():
    rep = C.Report("C07", "proof", "path-sensitive dataflow over MIR: every path of the checked imports, of the dynamic loader and of what the export macro expands to that hands out a symbol, "
                   "with the acceptance that must precede it")
    F = I.load()
    checked_import(rep, F)
    canaried_import(rep, F)
    I.export_gate(rep, F)
    I.import_report(rep, F)
    I.canary_caller(rep, F)
    libloading(rep, F)
    p_c06c.check(F, rep)  # what "accepted" means
    for r, n in (("symbol use", 3), ("state change", 3), ("symbol write", 1), ("mismatch error", 2), ("export gate", 8), ("import's own report", 8),
                 ("loader path", 4), ("canaried symbol use", 1), ("canary caller", 40)):
        rep.floor(r, n)
    rep.assumptions += ["loops are followed twice: each iteration is decided from whatever state the previous ones left",
                        "the operating system's loader returns the symbol it is asked for",
                        "reports tell different types apart: C06"]
    return rep
