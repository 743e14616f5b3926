"""C09: what a trait object's caller asks for is what the vtable's maker put there."""
import os
import re
import common as C
import facts
import paths as P

DYN, REF = "stabby_abi::fatptr::Dyn", "stabby_abi::fatptr::DynRef"
CONSTRUCTOR = "stabby_abi::vtable::IConstConstructor"
NEWTYPES = ("stabby_abi::vtable::VtSend", "stabby_abi::vtable::VtSync")
PAIR, VTDROP = "stabby_abi::vtable::VTable", "stabby_abi::vtable::VtDrop"
MARKS = {"P0": ["Many"], "P1": ["Many", "Args"], "P2": ["Args", "Many"],
         "P3": ["Many", "Args", "Abis", "OneRef", "OneMut", "Send", "Sync"],
         "P4": ["SameA"], "P5": ["SameB"], "V0": ["Many"], "V1": ["Many", "Args"], "V2": ["Args", "Many"],
         "V3": ["Many", "Args", "Abis", "OneRef", "OneMut", "Send", "Sync"]}


def load():
    return facts.load_with(os.path.join(C.ROOT, "witness/objects"), "witness_objects", "objects")


def inlined(fn, c):
    """not the registry, and not a trait's default where the type may have a body of its own"""
    if "IConstConstructor" in fn["path"]:
        return False
    return not (c.info is not None and c.info.trait and not c.info.rkey)


def field(F, adt, name):
    for i, f in enumerate(F.adt[adt]["variants"][0]["fields"]):
        if f["name"] == name:
            return i
    raise C.ToolError("%s has no field %s" % (adt, name))


def fnptr(T, i, d=0):
    """the function pointer type inside a slot's type"""
    tn = T[i] if isinstance(i, int) else i
    if not isinstance(tn, dict) or d > 4:
        return None
    if tn.get("k") == "fnptr":
        return tn["s"]
    for x in tn.get("a", [])[:1] if tn.get("k") == "adt" else []:
        return fnptr(T, x, d + 1)
    return None


def norm(s, source):
    s = re.sub(r"for<[^>]*>\s*", "", s)
    s = re.sub(r"'(?!static)[A-Za-z_][A-Za-z0-9_]*\s*,?\s*", "", s)
    s = s.replace("<>", "").replace("unsafe ", "").replace("+ '", "'")
    return re.sub(r"\b%s\b" % re.escape(source), "()", s)


def place(F, T, tn, proj):
    """the type of a place inside a value of type tn, following plain fields, and the rest of the projection once
    a vtable struct was reached"""
    bind = None
    for n, e in enumerate(proj):
        if not isinstance(tn, dict) or tn.get("k") != "adt" or e[0] != "f":
            return None
        if tn["p"] not in NEWTYPES and tn["p"] != PAIR:
            return tn["p"], proj[n:]
        a = F.adt[tn["p"]]
        f = a["variants"][0]["fields"][e[1]]
        want = a["T"][f["t"]]
        own = a["T"][a["t"]]
        hit = [k for k, x in enumerate(own.get("a", [])) if isinstance(x, int) and a["T"][x]["s"] == want["s"]]
        if not hit:
            return None
        x = tn["a"][hit[0]]
        tn = T[x] if isinstance(x, int) else x
    return (tn["p"], ()) if isinstance(tn, dict) and tn.get("k") == "adt" else None


class Tables:
    """every vtable constructor: adt -> slot index -> (method name, trait)"""

    def __init__(self, F, E, R):
        self.slots, self.where, self.traits = {}, {}, set()
        for c in F.consts:
            if not c["path"].endswith("::VTABLE"):
                continue
            T = c["T"]
            tn = T[c["ty"]]
            if tn.get("k") == "tuple" and not tn.get("ts", tn.get("a")):
                continue
            src = T[c["impl"]["targs"][1]]["s"]
            name = "the vtable `%s` (%s)" % (tn["s"], c["impl"]["loc"])
            key = "table|" + tn.get("p", tn["s"])
            try:
                outs = [o for o in E.run(dict(c, inputs=[]), args=[]) if o.kind == "return"]
            except P.TooMany:
                outs = []
            if len(outs) != 1 or outs[0].val[0] != "agg":
                R.count("vtable constructors not followed")
                continue
            v = outs[0].val
            fields = F.adt[tn["p"]]["variants"][0]["fields"]
            traits = set()
            R.count("vtable constructors")
            for i, x in enumerate(v[5]):
                fname = fields[i]["name"]
                if x[0] == "k":
                    self.nested(F, R, c, T, tn, src, key, name, fields, i, x)
                    continue
                x = P.project(x, ()) if x[0] == "ld" else x
                if x[0] != "fn":
                    R.count("slots not followed")
                    continue
                info = x[3]
                R.count("vtable slots")
                self.slots.setdefault(tn["p"], {})[i] = info.name or info.path.rsplit("::", 1)[-1]
                self.where[tn["p"]] = name
                args = info.tyargs()
                if info.trait:
                    traits.add((info.trait, tuple(args)))
                    self.traits.add(info.trait)
                if not args or args[0] != src:
                    R.violation(key + "|" + fname + "|self", "%s puts `%s` of `%s` into its slot `%s`, and not that of the object's own type `%s`" % (name, info.path, args[0] if args else "nothing", fname, src))
            if len(traits) > 1:
                R.violation(key + "|traits", "%s mixes methods of several traits: %s" % (name, ", ".join(sorted(t for t, _ in traits))))
            used = list(self.slots.get(tn["p"], {}).values())
            for m in sorted({m for m in used if used.count(m) > 1}):
                R.violation(key + "|twice|" + m, "%s puts the method `%s` into two slots" % (name, m))
            self.types(R, c, T, src, key, name)

    def nested(self, F, R, c, T, tn, src, key, name, fields, i, x):
        m = re.match(r"<(.*) as %s<'_, (.*)>>::VTABLE$" % re.escape(CONSTRUCTOR), str(x[1]))
        if not m:
            R.count("slots not followed")
            return
        R.count("nested vtables")
        a = F.adt[tn["p"]]
        want = a["T"][fields[i]["t"]]["s"]
        own = a["T"][a["t"]]
        hit = [k for k, y in enumerate(own.get("a", [])) if isinstance(y, int) and a["T"][y]["s"] == want]
        got = T[tn["a"][hit[0]]]["s"] if hit else None
        if got != m.group(1) or m.group(2) != src:
            R.violation(key + "|" + fields[i]["name"] + "|part", "%s takes its part `%s` from `%s` for `%s`, and not from `%s` for `%s`" % (name, fields[i]["name"], m.group(1), m.group(2), got, src))

    def types(self, R, c, T, src, key, name):
        """each pointer's signature is the slot's, but for the type of the object"""
        b = c["body"]

        def ty(o):
            p = o.get("copy") or o.get("move")
            if p is not None:
                return b["locals"][p["l"]] if not p["p"] else None
            return o["const"]["ty"] if "const" in o else None
        for bl in b["blocks"]:
            for s in bl["s"]:
                r = s.get("r") or {}
                if s.get("k") != "=" or r.get("k") != "cast" or r.get("ck") != "Transmute":
                    continue
                i = ty(r["x"])
                frm = T[i] if isinstance(i, int) else None
                to = fnptr(T, r["t"])
                if frm is None or frm.get("k") != "fnptr" or to is None:
                    continue
                R.count("slot signatures")
                if norm(frm["s"], src) != norm(to, src):
                    R.violation(key + "|sig|" + norm(to, src), "%s stores a `%s` in a slot of type `%s`" % (name, frm["s"], to))


def outcomes(E, R, f, what):
    try:
        return [o for o in E.run(f) if o.kind == "return"]
    except P.TooMany:
        R.count(what + " not followed")
        return []


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def slot_of(F, f, E, o, call, pv):
    """(vtable adt, slot index, whether the table is the object's own) an indirect call goes through"""
    fv = call[4].fv
    if fv is None or fv[0] != "ld":
        return None
    base, proj = fv[1], [e for e in fv[2]]
    own = ("ld", ("arg", 1), (("f", pv),))
    for ev in o.st.events():
        if ev[0] == "call" and ev[3] == base and ev[1].endswith("::tderef"):
            a = ev[4].info.d.get("a") or []
            tn = ev[4].info.T[a[1]] if len(a) > 1 and isinstance(a[1], int) else None
            if not isinstance(tn, dict) or tn.get("k") != "adt" or not proj:
                return None
            return tn["p"], proj[0][1], strip(ev[2][0])
    root = strip(base)
    T = f["T"]
    tn = T[f["impl"]["self"]]
    vts = [x for x in tn.get("a", []) if isinstance(x, int)]
    got = place(F, T, T[vts[-1]], proj) if vts else None
    if got is None or not got[1]:
        return None
    return got[0], got[1][0][1], root


def unit(f):
    o = f["T"][f["output"]] if isinstance(f.get("output"), int) else None
    return isinstance(o, dict) and o.get("s") == "()"


def strip(t):
    while t[0] == "ref" and t[1][0] == "M" and not t[2]:
        t = t[1][1]
    return t


def self_place(t, i):
    """whether a term is the i-th field of the object a method was given, by value, by reference or pinned"""
    if t[0] == "ld" and t[2] and t[2][-1] == ("f", i):
        b = t[1]
        return mentions(b, ("arg", 1)) and all(e == ("f", 0) for e in t[2][:-1])
    if t[0] == "ref":
        return t[1][0] == "M" and bool(t[2]) and t[2][-1] == ("f", i) and mentions(t[1], ("arg", 1))
    if t[0] == "pj":
        return t[2] == ("f", i) and (t[1] == ("arg", 1) or self_place(t[1], i))
    return False


class Dispatch:
    def __init__(self, F, E, R, tables):
        self.seen = {}
        for f in F.fns:
            imp = f.get("impl") or {}
            if not f.get("body") or imp.get("self") is None or not imp.get("trait"):
                continue
            tn = f["T"][imp["self"]]
            if tn.get("p") not in (DYN, REF) or imp["trait"].endswith("IntoSuperTrait") or "{closure" in f["path"]:
                continue
            self.judge(F, E, R, tables, f, tn, imp)

    def judge(self, F, E, R, tables, f, tn, imp):
        pp, pv = field(F, tn["p"], "ptr"), field(F, tn["p"], "vtable")
        name = f["path"]
        key = "dispatch|%s|%s|%s" % (tn["p"].rsplit("::", 1)[-1], imp["trait"], f["name"])
        macro = imp["trait"].rsplit("::", 1)[-1].endswith(("Dyn", "DynMut")) or "CallOnceDyn" in imp["trait"]
        outs = outcomes(E, R, f, "dispatching methods")
        hit = False
        for o in outs:
            ev = [e for e in o.st.events() if e[0] == "call" and e[1] == "<indirect>"]
            if not ev:
                if hit or macro:
                    R.violation(key + "|none", "`%s` returns on a path without having called the object's method" % name)
                continue
            if f["impl"]["trait"] in ("core::ops::drop::Drop", "core::clone::Clone"):
                continue
            got = slot_of(F, f, E, o, ev[0], pv)
            if got is None or got[0] not in tables.slots:
                R.count("dispatching paths not followed")
                continue
            hit = True
            R.count("dispatching paths")
            adt, i, table = got
            if len(ev) > 1:
                R.violation(key + "|twice", "`%s` calls into the vtable more than once on one path" % name)
            m = tables.slots[adt].get(i)
            self.seen.setdefault((adt, i), set()).add(tn["p"])
            if m is not None and m != f["name"]:
                R.violation(key + "|slot", "`%s` goes through the slot that %s fills with `%s`" % (name, tables.where[adt], m))
            if not self_place(table, pv):
                R.violation(key + "|table", "`%s` goes through a vtable that is not its object's own (%s)" % (name, P.show(table)[:120]))
            self.receiver(R, key, name, f, tn, o, ev[0], pp)
            if any(e[0] == "drop" and e[3] == ("arg", 1) for e in o.st.events()):
                R.violation(key + "|again", "`%s` gives its object away to the method and drops it too" % name)
            if macro:
                rest = list(ev[0][2][1:])
                want = [("arg", n + 1) for n in range(1, len(f["inputs"]))]
                if rest != want:
                    R.violation(key + "|arguments", "`%s` passes on (%s) as its arguments" % (name, ", ".join(P.show(x) for x in rest)))
                if o.val != ev[0][3] and f["T"][f["inputs"][0]].get("k") is not None and not unit(f):
                    R.violation(key + "|result", "`%s` returns something other than its method's result" % name)
        if hit:
            R.count("dispatching methods")

    def receiver(self, R, key, name, f, tn, o, call, pp):
        r = call[2][0] if call[2] else None
        if r is None:
            return
        byvalue = f["T"][f["inputs"][0]].get("k") == "adt" and f["T"][f["inputs"][0]].get("p") == tn["p"]
        for ev in o.st.events():
            if ev[0] == "call" and ev[3] == r and ev[1].rsplit("::", 1)[-1] in ("as_ref", "as_mut") and "IPtr" in ev[1]:
                if not self_place(strip(ev[2][0]), pp) and not self_place(ev[2][0], pp):
                    R.violation(key + "|receiver", "`%s` calls its method on %s, which is not its own object" % (name, P.show(ev[2][0])[:120]))
                return
        if tn["p"] == REF or byvalue:
            t = strip(r)
            if not (self_place(t, pp) or self_place(r, pp) or r == ("pj", ("arg", 1), ("f", pp)) or mentions(r, ("arg", 1)) and byvalue and not mentions(r, ("f", field_other(pp)))):
                R.violation(key + "|receiver", "`%s` calls its method on %s, which is not its own object" % (name, P.show(r)[:120]))
            return
        R.violation(key + "|receiver", "`%s` calls its method on %s, which it did not get from its own pointer" % (name, P.show(r)[:120]))


def field_other(pp):
    return pp + 1


def indirect_drop(F, E, R):
    """destruction: the slot drops its argument once, the object hands it to its own pointer, the pointer calls it
    at most once, on what it points to, and exactly when it owns that"""
    n = 0
    for f in F.byfn.get("stabby_abi::vtable::drop", []):
        n += 1
    for c in F.consts:
        if c["T"][c["ty"]].get("p") != VTDROP or not c["path"].endswith("::VTABLE"):
            continue
        outs = [o for o in E.run(dict(c, inputs=[]), args=[]) if o.kind == "return"]
        for o in outs:
            fn = o.val[5][0] if o.val[0] == "agg" else None
            if fn is None or fn[0] != "fn":
                R.count("destructor slots not followed")
                continue
            cands = F.byfn.get(fn[3].rpath or fn[3].path) or F.byfn.get(fn[3].path) or []
            for f in cands:
                for oo in outcomes(E, R, f, "destructors"):
                    R.count("paths of the destructor slot")
                    d = [ev for ev in oo.st.events() if ev[0] == "drop" and ev[1] == ("M", ("arg", 1)) and not ev[2]]
                    if len(d) != 1:
                        R.violation("destroy|slot", "`%s`, which vtables hold to destroy their object, drops it %d times on a path" % (f["path"], len(d)))
    R.floor("paths of the destructor slot", 1)
    for f in F.fns:
        imp = f.get("impl") or {}
        if not f.get("body") or imp.get("self") is None or imp.get("trait") != "core::ops::drop::Drop" or f["T"][imp["self"]].get("p") != DYN:
            continue
        pp, pv = field(F, DYN, "ptr"), field(F, DYN, "vtable")
        for o in outcomes(E, R, f, "destructors"):
            R.count("paths of a trait object's destructor")
            ds = [ev for ev in o.st.events() if ev[0] == "call" and ev[1].endswith("IPtrOwned::drop")]
            if len(ds) != 1:
                R.violation("destroy|object", "`%s` hands its pointer over for destruction %d times" % (f["path"], len(ds)))
                continue
            ev = ds[0]
            vt = [e for e in o.st.events() if e[0] == "call" and e[1].endswith("::drop_vt")]
            ok = any(mentions(ev[2][1], e[3]) and self_place(strip(e[2][0]), pv) for e in vt)
            if not self_place(ev[2][0], pp):
                R.violation("destroy|object|ptr", "`%s` destroys %s, and not its own pointer" % (f["path"], P.show(ev[2][0])[:100]))
            if not ok:
                R.violation("destroy|object|slot", "`%s` destroys its object with %s, which is not its own vtable's destructor" % (f["path"], P.show(ev[2][1])[:100]))
    R.floor("paths of a trait object's destructor", 1)
    derefs = {}
    for f in F.fns:
        imp = f.get("impl") or {}
        if f.get("body") and imp.get("trait") in ("core::ops::deref::Deref", "stabby_abi::fatptr::IPtr") and f["name"] in ("deref", "as_ref"):
            tn = f["T"][imp["self"]]
            vs = {strip(o.val) for o in outcomes(E, R, f, "pointers")}
            if len(vs) == 1:
                derefs.setdefault(ident(f["T"], tn), {})[f["name"]] = vs.pop()
    for f in F.fns:
        imp = f.get("impl") or {}
        tr = imp.get("trait")
        if not f.get("body") or tr not in ("stabby_abi::fatptr::IPtr", "stabby_abi::fatptr::IPtrMut", "stabby_abi::fatptr::IPtrOwned", "stabby_abi::fatptr::IPtrTryAsMut"):
            continue
        tn = f["T"][imp["self"]]
        who = ident(f["T"], tn)
        short = tn["s"]
        if tn.get("k") == "param":
            continue
        target = derefs.get(who, {}).get("deref")
        if tn.get("k") == "ref":
            target = ("ld", ("arg", 1), ())
        if f["name"] in ("as_ref", "as_mut", "try_as_mut"):
            for o in outcomes(E, R, f, "pointers"):
                v = o.val
                if v[0] == "agg" and v[4] in ("None", "Some"):
                    if v[4] == "None":
                        continue
                    v = v[5][0]
                R.count("accesses through a pointer")
                if target is not None and strip(v) != target:
                    R.violation("pointer|%s|%s" % (tr.rsplit("::", 1)[-1], short), "`%s` gives out %s, and not what the pointer points to (%s)" % (f["path"], P.show(v)[:120], P.show(target)[:120]))
        elif f["name"] == "drop":
            outs = outcomes(E, R, f, "destructors")
            calls = []
            at = derefs.get(who, {}).get("as_ref")
            for o in outs:
                ev = [e for e in o.st.events() if e[0] == "call" and e[1] == "<indirect>" and e[4].fv == ("arg", 2)]
                calls.append((len(ev), o))
                R.count("paths of a pointer's destructor")
                if len(ev) > 1:
                    R.violation("destroy|pointer|%s|twice" % short, "`%s` destroys the object %d times on a path" % (f["path"], len(ev)))
                for e in ev:
                    if at is not None and strip(e[2][0]) != at:
                        R.violation("destroy|pointer|%s|what" % short, "`%s` destroys %s, and not what the pointer points to (%s)" % (f["path"], P.show(e[2][0])[:100], P.show(at)[:100]))
                    evs = o.st.events()
                    k = evs.index(e)
                    if any(x[0] == "call" and x[1].endswith(("IAlloc::free", "::free")) or x[0] == "drop" and mentions(x[3], ("arg", 1)) for x in evs[:k]):
                        R.violation("destroy|pointer|%s|late" % short, "`%s` destroys the object after giving up its memory" % f["path"])
                    for x in evs:
                        if x[0] == "drop" and strip(x[3] if isinstance(x[3], tuple) else ("c", 0)) == ("arg", 1):
                            R.violation("destroy|pointer|%s|again" % short, "`%s` destroys the object and then drops the pointer, which destroys it again" % f["path"])
            kind = owner_kind(F, E, R, f["T"], tn)
            some, none = any(n for n, _ in calls), any(not n for n, _ in calls)
            if kind == "never" and some:
                R.violation("destroy|pointer|%s|kind" % short, "`%s` destroys an object its pointer does not own" % f["path"])
            if kind == "always" and none:
                R.violation("destroy|pointer|%s|kind" % short, "`%s` returns without destroying the object its pointer owns" % f["path"])
            if kind == "counted":
                for n, o in calls:
                    lits = [(t, v) for t, v in o.st.lits.items() if mentions_call(t, o, "fetch_sub")]
                    one = any(isinstance(v, int) and (t[:2] == ("op", "Eq") and ("c", 1) in t[2:] and v == 1 or t[0] == "r" and v == 1 or t[:2] == ("op", "Ne") and ("c", 1) in t[2:] and v == 0) for t, v in lits)
                    if bool(n) != one:
                        R.violation("destroy|pointer|%s|kind" % short, "`%s` %s the object on a path where the share it gives up is %s the last one" % (f["path"], "destroys" if n else "does not destroy", "" if one else "not known to be"))
    R.floor("paths of a pointer's destructor", 4)
    R.floor("accesses through a pointer", 6)


def mentions_call(t, o, name):
    if t[0] == "r":
        return t[2].endswith("::" + name)
    return any(mentions_call(x, o, name) for x in t if isinstance(x, tuple) and x and isinstance(x[0], str))


def ident(T, tn):
    if tn.get("k") == "ref":
        return "&mut" if tn.get("mut") else "&"
    return tn.get("p") or tn["s"]


def owner_kind(F, E, R, T, tn):
    """what a pointer's own destructor does with its contents: always, counted, never"""
    if tn.get("k") == "ref":
        return "never"
    p = tn.get("p")
    if p is None:
        return None
    for f in F.fns:
        imp = f.get("impl") or {}
        if not f.get("body") or imp.get("trait") != "core::ops::drop::Drop" or f["T"][imp["self"]].get("p") != p:
            continue
        mine = f["T"][imp["self"]]
        content = f["T"][mine["a"][0]]["s"] if mine.get("a") and isinstance(mine["a"][0], int) else None
        if content is None:
            content = next((f["T"][x]["s"] for x in mine.get("a", []) if isinstance(x, int)), None)
        outs = outcomes(E, R, f, "destructors")
        does = [any(ev[0] == "drop" and tyname(ev[4]) == content for ev in o.st.events()) for o in outs]
        if not does:
            return None
        return "always" if all(does) else "counted" if any(does) else "never"
    return None


def tyname(t):
    return t["s"] if isinstance(t, dict) else str(t)


def navigation(F, E, R):
    """walking from a table to the part it was asked for stays inside that table"""
    for f in F.fns:
        imp = f.get("impl") or {}
        if not f.get("body") or imp.get("trait") not in ("stabby_abi::vtable::TransitiveDeref", "stabby_abi::vtable::HasDropVt"):
            continue
        for o in outcomes(E, R, f, "walks through vtables"):
            R.count("walks through vtables")
            v = o.val
            for ev in o.st.events():
                if ev[0] == "call" and ev[3] == v and ev[1].rsplit("::", 1)[-1] in ("tderef", "drop_vt"):
                    v = ev[2][0]
            ok = v == ("arg", 1) or v[0] == "ref" and v[1] == ("M", ("arg", 1)) and all(e[0] == "f" for e in v[2])
            if not ok:
                R.violation("walk|" + f["path"], "`%s` returns %s, which is not a part of the vtable it was given" % (f["path"], P.show(o.val)[:120]))
    R.floor("walks through vtables", 5)


def makers(F, E, R):
    """wherever a trait object is put together, its pointer and its vtable are those of one object"""
    for f in F.fns:
        if not f.get("body") or f["crate"] != "stabby_abi" and f["crate"] != "stabby":
            continue
        if not any((s.get("r") or {}).get("k") == "agg" and s["r"].get("adt") in (DYN, REF) for b in f["body"]["blocks"] for s in b["s"]):
            continue
        R.count("functions that make trait objects")
        inc = [t for t in f["inputs"]]
        whole = []
        if "{closure" in f["path"]:
            continue
        for o in outcomes(E, R, f, "functions that make trait objects"):
            made = []
            collect(o.val, made)
            for ev in o.st.events():
                if ev[0] == "write":
                    collect(ev[3], made)
            if not made:
                R.count("made objects not seen")
            for m in made:
                R.count("trait objects made")
                self_judge(F, R, f, o, m)
    R.floor("trait objects made", 5)


def collect(t, out):
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == "agg" and len(t) > 5 and t[2] in (DYN, REF):
        out.append(t)
        return
    for x in t:
        if isinstance(x, tuple):
            collect(x, out)


def roots(t, o, out, d=0):
    """the arguments a term was made from, through calls"""
    if not isinstance(t, tuple) or not t or d > 12:
        return
    if t[0] == "arg":
        out.add(t)
    if t[0] in ("r", "out"):
        for ev in o.st.events():
            if ev[0] == "call" and (ev[3] == t or t[0] == "out" and ev[3][0] == "r" and ev[3][1] == t[1]):
                for a in ev[2]:
                    roots(a, o, out, d + 1)
        return
    for x in t:
        if isinstance(x, tuple):
            roots(x, o, out, d + 1)


def self_judge(F, R, f, o, m):
    pp, pv = field(F, m[2], "ptr"), field(F, m[2], "vtable")
    ptr, vt = m[5][pp], m[5][pv]
    key = "maker|" + f["path"]
    where = "`%s`" % f["path"]
    if self_place(strip(vt), pv) or self_place(vt, pv):
        src = set()
        roots(ptr, o, src)
        base = set()
        roots(vt, o, base)
        if not src or src != base:
            R.violation(key + "|mixed", "%s joins the pointer %s with the vtable %s of another object" % (where, P.show(ptr)[:100], P.show(vt)[:100]))
        return
    for ev in o.st.events():
        if ev[0] == "call" and ev[3] == strip(vt) and ev[1].endswith("IConstConstructor::vtable"):
            args = ev[4].info.tyargs()
            tn = f["T"][f["inputs"][0]]
            if tn.get("k") == "ref":
                want = f["T"][tn["t"]]["s"]
            else:
                want = "<%s as stabby_abi::fatptr::IntoDyn>::Target" % tn["s"]
            if len(args) < 2 or args[-1] != want:
                R.violation(key + "|source", "%s uses the vtable of `%s` for an object of type `%s`" % (where, args[-1] if args else "?", want))
            src = set()
            roots(ptr, o, src)
            calls = [e for e in o.st.events() if e[0] == "call" and e[3] == strip(ptr)]
            if strip(ptr) != ("arg", 1) and not (calls and calls[0][1].endswith("IntoDyn::anonimize") and calls[0][2][0] == ("arg", 1)):
                R.violation(key + "|ptr", "%s stores %s as the object's pointer" % (where, P.show(ptr)[:120]))
            return
    R.violation(key + "|vtable", "%s gives the object %s as its vtable, which is neither made for its type nor taken from the same object" % (where, P.show(vt)[:120]))


def anonimizers(F, E, R):
    for f in F.fns:
        imp = f.get("impl") or {}
        if not f.get("body") or imp.get("trait") != "stabby_abi::fatptr::IntoDyn":
            continue
        for o in outcomes(E, R, f, "pointers"):
            R.count("pointers made anonymous")
            if o.val != ("arg", 1) and strip(o.val) != ("arg", 1):
                R.violation("anonymous|" + f["path"], "`%s` returns %s, and not the pointer it was given" % (f["path"], P.show(o.val)[:120]))
    R.floor("pointers made anonymous", 4)


def chain(tn_s):
    return re.sub(r"\s", "", tn_s)


def supers(F, E, R):
    """removing traits from an object: same pointer, same table, whose beginning is the table asked for"""
    first = F.adt[PAIR]["variants"][0]["fields"]
    prefix = first[0]["name"] == "tail" and "IS_C" in str(F.adt[PAIR]["repr"])
    for f in F.fns:
        imp = f.get("impl") or {}
        if not f.get("body") or imp.get("trait") != "stabby_abi::fatptr::IntoSuperTrait":
            continue
        T = f["T"]
        frm = T[imp["self"]]
        to = T[f["output"]] if isinstance(f["output"], int) else None
        if not isinstance(to, dict) or to.get("k") != "adt":
            continue
        key = "super|" + f["path"]
        R.count("conversions to fewer traits")
        a, b = vt_of(T, frm), vt_of(T, to)
        x, y = erase(T, a), erase(T, b)
        ok = frm["p"] == to["p"]
        hops = 0
        while ok and x["s"] != y["s"] and x.get("p") == PAIR and hops < 8:
            hops += 1
            if not prefix:
                R.violation("super|prefix", "a vtable no longer begins with the vtable it extends, while `%s` takes it for that" % f["path"])
                break
            x = erase(T, T[x["a"][1]])
        if not ok or x["s"] != y["s"]:
            R.violation(key + "|type", "`%s` takes a `%s` for a `%s`, with which it does not begin" % (f["path"], a["s"], b["s"]))
        if frm["p"] == DYN:
            pa, pb = [[T[q]["s"] for q in t["a"] if isinstance(q, int)][:-1] for t in (frm, to)]
            if pa != pb:
                R.violation(key + "|pointer", "`%s` turns a pointer `%s` into a `%s`" % (f["path"], pa, pb))
        for o in outcomes(E, R, f, "conversions to fewer traits"):
            R.count("paths of conversions to fewer traits")
            if o.val != ("arg", 1):
                R.violation(key + "|value", "`%s` returns %s, and not the object it was given" % (f["path"], P.show(o.val)[:120]))
            if frm["p"] == DYN:
                evs = o.st.events()
                if any(ev[0] == "drop" and ev[3] == ("arg", 1) for ev in evs) or not any(ev[0] == "forget" for ev in evs) and len(E_copies(evs)) > 0:
                    R.violation(key + "|dropped", "`%s` returns a copy of an object which it also drops" % f["path"])
    R.floor("conversions to fewer traits", 20)


def E_copies(evs):
    return [e for e in evs if e[0] == "ptr_read"]


def vt_of(T, tn):
    x = [q for q in tn["a"] if isinstance(q, int)][-1]
    return T[x]


def erase(T, tn):
    while tn.get("p") in NEWTYPES:
        tn = T[tn["a"][0]]
    return tn


def downcasts(F, E, R):
    """a reference to the concrete type only leaves a trait object after the object was found to be of it"""
    for f in F.fns:
        imp = f.get("impl") or {}
        if not f.get("body") or imp.get("self") is None or imp.get("trait") or f["T"][imp["self"]].get("p") not in (DYN, REF) or "{closure" in f["path"]:
            continue
        if f.get("vis", "") == "private" or not gives_ref(f):
            continue
        tn = f["T"][imp["self"]]
        pp, pv = field(F, tn["p"], "ptr"), field(F, tn["p"], "vtable")
        key = "downcast|" + f["path"]
        some = False
        for o in outcomes(E, R, f, "downcasts"):
            v = o.val
            if v[0] != "agg" or v[4] != "Some":
                continue
            some = True
            R.count("paths of successful downcasts")
            p = strip(v[5][0])
            own = self_place(p, pp) or any(ev[0] == "call" and ev[3] == p and "IPtr" in ev[1] and self_place(ev[2][0], pp) for ev in o.st.events())
            if not own:
                R.violation(key + "|ptr", "`%s` returns a reference to %s, which is not its object" % (f["path"], P.show(p)[:100]))
            if not proven(F, f, o, pv):
                R.violation(key + "|unchecked", "`%s` gives out its object as a `T` without having compared its vtable or its report with `T`'s" % f["path"])
        if some:
            R.count("downcasts")
    R.floor("downcasts", 4)


def gives_ref(f):
    """returns an optional reference to a type parameter of its own"""
    return bool(re.search(r"-> .*Option<&('[a-z_]+ )?(mut )?[A-Z]\w*>$", str(f.get("sig", "")))) or "downcast" in f["name"]


def proven(F, f, o, pv):
    evs = o.st.events()
    for t, v in o.st.lits.items():
        for tt, vv in ((t, v), (t[1], 1 - v) if t[0] == "not" and isinstance(v, int) else (t, v)):
            if vv != 1:
                continue
            sides = None
            if tt[0] == "op" and tt[1] == "Eq":
                sides = (tt[2], tt[3])
            elif tt[0] == "r":
                e = next((e for e in evs if e[0] == "call" and e[3] == tt), None)
                if e is not None and e[1].endswith("PartialEq::eq"):
                    sides = (e[2][0], e[2][1])
            if sides is None:
                continue
            for a, b in (sides, sides[::-1]):
                if self_place(strip(a), pv):
                    e = next((e for e in evs if e[0] == "call" and e[3] == strip(b) and e[1].endswith("IConstConstructor::vtable")), None)
                    if e is not None and e[4].info.tyargs()[-1] == own_param(f):
                        return True
                rep = next((e for e in evs if e[0] == "call" and e[1] == "<indirect>" and e[3] == strip(a)), None)
                if rep is not None and report_slot(F, f, o, rep, pv) and re.search(r"<%s as .*::REPORT$" % own_param(f), konst(o, b)):
                    return True
    return False


def konst(o, b):
    """the text of a constant, through a reference to one"""
    t = strip(b)
    for _ in range(4):
        if t[0] == "k":
            return str(t[1])
        if t[0] == "ref" and t[1][0] == "K":
            t = t[1][1]
        elif t[0] == "ld":
            t = t[1]
        else:
            break
    return str(t)


def report_slot(F, f, o, call, pv):
    fv = call[4].fv
    return fv is not None and fv[0] == "ld"


def own_param(f):
    m = re.search(r"Option<&(?:'[a-z_]+ )?(?:mut )?([A-Z]\w*)>", str(f.get("sig", "")))
    return m.group(1) if m else "T"


def equalities(F, E, R):
    """two vtables only compare equal when all their slots do"""
    for f in F.fns:
        imp = f.get("impl") or {}
        if not f.get("body") or imp.get("trait") != "core::cmp::PartialEq" or f["name"] != "eq":
            continue
        tn = f["T"][imp["self"]]
        p = tn.get("p", "")
        if p != PAIR and p not in NEWTYPES and p != VTDROP and "StabbyVtable" not in p.rsplit("::", 1)[-1]:
            continue
        n = len(F.adt[p]["variants"][0]["fields"])
        for o in outcomes(E, R, f, "comparisons of vtables"):
            if o.val == ("c", 0):
                continue
            R.count("comparisons of vtables that succeed")
            facts_ = [t for t, v in o.st.lits.items() if v == 1] + [o.val]
            for i in range(n):
                if not any(same_field(t, o, i) for t in facts_):
                    R.violation("equal|%s|%d" % (p, i), "`%s` reports two vtables as equal without having compared their `%s`" % (f["path"], F.adt[p]["variants"][0]["fields"][i]["name"]))
    R.floor("comparisons of vtables that succeed", 8)


def same_field(t, o, i):
    sides = None
    if t[0] == "op" and t[1] == "Eq":
        sides = t[2:4]
    elif t[0] == "r":
        e = next((e for e in o.st.events() if e[0] == "call" and e[3] == t), None)
        if e is not None and len(e[2]) == 2:
            sides = e[2]
    if sides is None:
        return False

    def at(x):
        x = strip(x)
        if x[0] in ("ld",) and x[2]:
            return x[1], x[2][0]
        if x[0] == "ref" and x[1][0] == "M" and x[2]:
            return x[1][1], x[2][0]
        return None
    a, b = at(sides[0]), at(sides[1])
    return a is not None and b is not None and a[1] == b[1] == ("f", i) and {a[0], b[0]} == {("arg", 1), ("arg", 2)}


def reports(F, E, R):
    """an object's own report and identifier are those of its type"""
    for f in F.fns:
        imp = f.get("impl") or {}
        if not f.get("body") or imp.get("trait") != "stabby_abi::vtable::Any":
            continue
        me = f["T"][imp["self"]]["s"]
        for o in outcomes(E, R, f, "reports"):
            R.count("reports of objects")
            t = P.show(o.val)
            want = "REPORT" if f["name"] == "report" else "ID"
            if o.val[0] != "k" or ("<%s as" % me not in str(o.val[1]) or not str(o.val[1]).endswith("::" + want)):
                R.violation("report|" + f["name"], "`%s` returns %s" % (f["path"], t))
    R.floor("reports of objects", 2)


def forwarders(F, E, R, traits):
    """implementations for every type of some other trait pass the call on to that trait's method of the same name"""
    for f in F.fns:
        imp = f.get("impl") or {}
        if not f.get("body") or imp.get("self") is None or imp.get("trait") not in traits or imp["trait"].endswith("vtable::Any") or "{closure" in f["path"]:
            continue
        if f["T"][imp["self"]].get("k") != "param" or not imp["trait"].startswith("stabby"):
            continue
        key = "forward|%s|%s" % (imp["trait"], f["name"])
        n = len(f["inputs"])
        for o in outcomes(E, R, f, "forwarding methods"):
            R.count("paths of forwarding methods")
            ev = [e for e in o.st.events() if e[0] == "call" and e[4].info is not None and e[4].info.trait and e[4].info.trait != imp["trait"] and e[1].rsplit("::", 1)[-1] == f["name"]]
            if len(ev) != 1:
                R.violation(key + "|calls", "`%s` calls its type's own `%s` %d times on a path" % (f["path"], f["name"], len(ev)))
                continue
            a = list(ev[0][2])
            if not mentions(a[0], ("arg", 1)):
                R.violation(key + "|receiver", "`%s` forwards to %s" % (f["path"], P.show(a[0])[:100]))
            rest = a[1:]
            if len(rest) == 1 and rest[0][0] == "agg" and rest[0][1] == "tuple":
                rest = list(rest[0][5])
            if len(rest) == n - 1 and all(x[0] == "arg" for x in rest) and rest != [("arg", k) for k in range(2, n + 1)]:
                R.violation(key + "|arguments", "`%s` passes on (%s) as its arguments" % (f["path"], ", ".join(P.show(x) for x in rest)))
            if not unit(f) and not mentions(o.val, ev[0][3]) and not any(e[0] == "write" and mentions(e[3], ev[0][3]) for e in o.st.events()) and not made_from(o, o.val, ev[0][3]) \
                    and not any(mentions(t, ev[0][3]) for t in o.st.lits):
                R.violation(key + "|result", "`%s` does not return what its type's own `%s` returned" % (f["path"], f["name"]))
    R.floor("paths of forwarding methods", 30)


def made_from(o, t, x, d=0):
    if mentions(t, x):
        return True
    if d > 4:
        return False
    return any(e[0] == "call" and mentions(t, e[3]) and any(made_from(o, a, x, d + 1) for a in e[2]) for e in o.st.events())


def compositions(F, R):
    """the object types that the macros spell carry each trait once"""
    for f in F.fns:
        m = re.match(r"witness_objects::bounds_([pv]\d)$", f["path"])
        if not m:
            continue
        k = m.group(1).upper()
        got = [x.rsplit("::", 1)[-1] for x in re.findall(r"\(?dyn ([\w:]+)", str(f["sig"]))]
        R.count("object types spelled by the macros")
        if sorted(got) != sorted(MARKS[k]):
            R.violation("compose|" + k, "the object type written with %s is made of %s" % (MARKS[k], got))
    R.floor("object types spelled by the macros", 8)


def check():
    R = C.Report("C09", "other", "path-by-path comparison, in the compiler's MIR, of what fills each vtable slot with what each dispatching method calls")
    F = load()
    E = P.Engine(F, depth=6, inline=inlined)
    tables = Tables(F, E, R)
    D = Dispatch(F, E, R, tables)
    for adt, slots in sorted(tables.slots.items()):
        if adt == VTDROP:
            continue
        for i, m in sorted(slots.items()):
            R.count("slots that must be reachable")
            if DYN not in D.seen.get((adt, i), ()):
                R.violation("unreachable|%s|%s" % (adt, m), "no method of a trait object goes through the slot %s fills with `%s`" % (tables.where[adt], m))
    R.floor("vtable constructors", 35)
    R.floor("vtable slots", 60)
    R.floor("slot signatures", 50)
    R.floor("nested vtables", 4)
    R.floor("dispatching methods", 80)
    indirect_drop(F, E, R)
    navigation(F, E, R)
    makers(F, E, R)
    anonimizers(F, E, R)
    supers(F, E, R)
    downcasts(F, E, R)
    equalities(F, E, R)
    reports(F, E, R)
    forwarders(F, E, R, tables.traits | {"stabby_abi::alloc::IAlloc"})
    compositions(F, R)
    R.coverage = {"explained": "every vtable constructor, dispatching method, conversion, downcast and destructor of a trait object in the library, and those the trait macro generates for the witness traits"}
    R.assumptions = ["rustc's MIR for the generic functions stands for every instantiation", "the trait macro treats other traits like the witness crate's, which has one of every shape it accepts"]
    return R
