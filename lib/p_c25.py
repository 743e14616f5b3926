import os
import re
import common as C
import facts
import mir
import programs as P

RAWADT = ("core::ptr::non_null::NonNull", "core::sync::atomic::AtomicPtr", "core::sync::atomic::Atomic")


def base(p):
    """Path without generic arguments."""
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::")


def fn_id(f):
    """Owner and name, independent of generics: Type::name, Trait::name or path."""
    i = f.get("impl")
    if i and "trait" in i:
        return i["trait"] + "::" + f["name"]
    if f.get("intrait"):
        return f["intrait"] + "::" + f["name"]
    return base(f["path"])


class Raw:
    """Does a type carry a raw pointer that its holder can choose freely?"""

    def __init__(self, F):
        self.F = F
        self.memo = {}

    def __call__(self, T, i, d=0):
        k = (id(T), i)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        self.memo[k] = r = self.go(T, i, d)
        return r

    def go(self, T, i, d):
        n = T[i]
        if n["k"] == "ptr":
            return True
        if n["k"] in ("ref", "array", "slice"):
            return self(T, n["t"], d + 1)
        if n["k"] == "tuple":
            return any(self(T, x, d + 1) for x in n["a"])
        if n["k"] == "adt":
            if n["p"] in RAWADT:
                return True
            a = self.F.adt.get(n["p"])
            if a is not None:
                return any(f["pub"] and self(a["T"], f["t"], d + 1) for v in a["variants"] for f in v["fields"])
            return any(isinstance(x, int) and self(T, x, d + 1) for x in n["a"]) if n["p"].startswith(("core::option", "core::result", "core::pin")) else False
        return False


# Receivers that are opaque callbacks or formatting: what they do with a pointer is not a use of it.
HARMLESS = re.compile(r"^(core::fmt|core::ptr::non_null::NonNull::<T>::(new_unchecked|cast)|core::pin)")


def uses(rep, F, raw, f):
    """Forward taint of the caller's raw pointers: (what is done with them) list."""
    T, body = f["T"], f["body"]
    taint = {}
    for i, t in enumerate(f["inputs"]):
        if raw(T, t):
            taint[i + 1] = "argument %d" % (i + 1)
    found = []

    def base_taint(p):
        return taint.get(p["l"])

    def derefs_raw(p):
        if p["l"] not in taint:
            return False
        for e, t in mir.ty_at(T, body, p):
            if e == "*" and t is not None and T[t]["k"] == "ptr":
                return True
        return False

    def tt(i):
        return i is not None and (raw(T, i) or T[i]["k"] in ("ref", "ptr", "param", "alias") or T[i].get("ak"))
    changed = True
    while changed:
        changed = False
        for b in body["blocks"]:
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if s["k"] != "=":
                    continue
                src = [p for p in mir.places_read(s) if p["l"] in taint]
                r = s["r"]
                if src and r["k"] not in ("discr",) and not (r["k"] == "bin" and r["op"] not in ("Offset",)):
                    lt = body["locals"][s["p"]["l"]]
                    if s["p"]["l"] not in taint and carries(T, raw, s["t"], r):
                        taint[s["p"]["l"]] = taint[src[0]["l"]]
                        changed = True
            t = b["t"]
            if t["k"] == "call":
                src = [mir.place_of(a) for a in t["args"] if mir.place_of(a) and mir.place_of(a)["l"] in taint]
                if src and t["dst"]["l"] not in taint and raw(T, t["dt"]):
                    taint[t["dst"]["l"]] = taint[src[0]["l"]]
                    changed = True
    for b in body["blocks"]:
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            ps = list(mir.places_read(s))
            if s["k"] == "=":
                ps.append(s["p"])
                if s["r"]["k"] in ("ref", "raw"):
                    pass
            for p in ps:
                if derefs_raw(p):
                    found.append(("dereferences", taint[p["l"]]))
            if s["k"] == "cpynonov":
                for x in ("src", "dst"):
                    p = mir.place_of(s[x])
                    if p and p["l"] in taint:
                        found.append(("copies through", taint[p["l"]]))
        t = b["t"]
        if t["k"] == "call":
            c = mir.callee(t)
            for a in t["args"]:
                p = mir.place_of(a)
                if p and derefs_raw(p):
                    found.append(("dereferences", taint[p["l"]]))
                if p and p["l"] in taint and c and c.get("unsafe") and not HARMLESS.match(c["p"]):
                    found.append(("passes to unsafe %s" % c["p"], taint[p["l"]]))
        elif t["k"] == "drop" and derefs_raw(t["p"]):
            found.append(("drops", taint[t["p"]["l"]]))
    return found, taint


def carries(T, raw, t, r):
    """Can a value of this type still hold the pointer?"""
    n = T[t]
    if r["k"] in ("ref", "raw"):
        return True
    if n["k"] == "prim":
        return r["k"] == "cast"
    return True


def exposes(rep, F, f):
    """&mut to a part whose replacement breaks the whole: an allocator, an owning pointer, a raw pointer."""
    T = f["T"]
    if not f.get("recv") or not f["recv"][1] or not f["self_param"]:
        return None
    out = T[f["output"]]
    if out["k"] != "ref" or not out["mut"]:
        return None
    s = T[f["recv"][2]]
    if s["k"] != "adt":
        return None
    x = T[out["t"]]
    if x["k"] == "param":
        ps = " ".join(p for p in f["preds"])
        for tr in ("IAlloc", "IPtrOwned", "IPtr", "IPtrMut"):
            if re.search(r"\b%s as \S*\b%s\b|\b%s: \S*\b%s\b" % (x["name"], tr, x["name"], tr), ps):
                return "its %s (%s)" % ({"IAlloc": "allocator"}.get(tr, "pointer"), x["name"])
    if x["k"] == "ptr" or (x["k"] == "adt" and x["p"].rsplit("::", 1)[-1] in ("NonNull", "AllocPtr", "AllocSlice", "AtomicPtr")):
        return "its pointer"
    if s["p"].endswith("::string::String") and x["k"] in ("adt", "slice") and "u8" in x["s"] and "Str" not in x["s"]:
        return "its bytes"
    return None


def site(f):
    i = f.get("impl")
    if i and "trait" in i:
        n = f["T"][i["self"]]
        while n["k"] == "ref":
            n = f["T"][n["t"]]
        return "%s for %s" % (fn_id(f), n.get("p") or n["k"])
    return fn_id(f)


UNCHECKED = re.compile(r"_unchecked(_mut)?$|^(set_len|assume_init|assume_init_ref|assume_init_mut|from_raw|from_raw_parts|from_raw_parts_mut|increment_strong_count|decrement_strong_count)$")


def unguarded(f):
    """A check-skipping call that every execution makes, on a value the caller passed as it is."""
    body, T = f["body"], f["T"]
    origin = {i: i for i in range(1, body["argc"] + 1)}
    defs = {}
    for b in body["blocks"]:
        for s in b["s"]:
            if s["k"] == "=" and not s["p"]["p"]:
                defs.setdefault(s["p"]["l"], []).append(s["r"])

    def org(l, d=0):
        if l in origin:
            return origin[l]
        ds = defs.get(l, [])
        if len(ds) != 1 or d > 8:
            return None
        r = ds[0]
        if r["k"] in ("use", "cast"):
            p = mir.place_of(r["x"])
        elif r["k"] in ("ref", "raw"):
            p = r["p"]
        else:
            return None
        if p is None or any(e != "*" for e in p["p"]):
            return None
        return org(p["l"], d + 1)
    dom = mir.dominators(body)
    for i, b in enumerate(body["blocks"]):
        if i not in dom or b["t"]["k"] != "call":
            continue
        c = mir.callee(b["t"])
        if not c or not c.get("unsafe") or not UNCHECKED.search(c["name"]) or c["p"].startswith("core::pin"):
            continue
        if any(body["blocks"][d]["t"]["k"] in ("switch", "assert") for d in dom[i] if d != i):
            continue
        # something called before may have checked (and panicked)
        a = [mir.place_of(x) for x in b["t"]["args"]]
        hit = [org(p["l"]) for p in a if p and all(e == "*" for e in p["p"])]
        hit = [h for h in hit if h is not None]
        if hit and not any(body["blocks"][d]["t"]["k"] == "call" for d in dom[i] if d != i):
            return c["p"], hit
    return None


PROMISE_TRAITS = {
    # trait: what unsafe code relies on its implementors for
    "istable::IStable": "the layout and niches it states",
    "istable::IPod": "being made of plain bytes",
    "alloc::IAlloc": "returning blocks that fit the layout, and freeing what it is given",
    "alloc::IStableAlloc": "returning blocks that fit the layout, and freeing what it is given",
    "fatptr::IPtr": "pointing at a live value",
    "fatptr::IPtrMut": "pointing at a live value, exclusively",
    "fatptr::IPtrTryAsMut": "only lending mutably what it owns alone",
    "fatptr::IPtrOwned": "dropping what it points at exactly once",
    "fatptr::IPtrClone": "cloning its share of what it points at",
    "fatptr::IntoDyn": "pointing at a value of its Target type once anonymized",
    "vtable::IConstConstructor": "building tables of functions that take the Source type",
    "enums::IDeterminant": "telling variants apart as they were set",
}


# Types whose methods rely on nobody else writing their fields.
ENCAPSULATED = """alloc::boxed::Box alloc::boxed::BoxedSlice alloc::collections::arc_btree::AtomicArcBTreeSet
alloc::collections::arc_btree::ArcBTreeMap alloc::collections::arc_btree::ArcBTreeSet alloc::single_or_vec::SingleOrVec
alloc::single_or_vec::SliceGuardMut alloc::single_or_vec::IterMut alloc::string::String alloc::string::ArcStr alloc::string::WeakStr
alloc::string::BoxedStr alloc::sync::Arc alloc::sync::Weak alloc::sync::ArcSlice alloc::sync::WeakSlice alloc::sync::AtomicArc
alloc::vec::Vec alloc::vec::IntoIter alloc::vec::Drain alloc::vec::DoubleEndedDrain as_mut::RefAs as_mut::MutAs fatptr::DynRef
fatptr::Dyn future::stable_waker::StableWaker StableLike checked_import::CheckedImport checked_import::CanariedImport
result::Result result::OkGuard result::ErrGuard option::Option str::Str str::StrMut""".split()


def table():
    return [l.strip() for l in open(os.path.join(C.ROOT, "witness", "unsafe_table.txt")) if l.strip() and not l.startswith("#")]


def check():
    rep = C.Report("C25", "other", "no safe public function dereferences, frees, owns or passes to unsafe code a raw pointer chosen by its caller (taint over MIR), skips a check unconditionally, or lends mutably a part whose replacement breaks its owner; no function of the table of unsafe ones has become safe; every trait making promises is unsafe to implement; calls that must be in an unsafe context are rejected outside of one (programs)")
    F = facts.load()
    raw = Raw(F)
    unsafe = set(table())
    for f in F.fns:
        if f["kind"] not in ("Fn", "AssocFn"):
            continue
        i = fn_id(f)
        if i in unsafe:
            rep.count("functions of the unsafe table")
            if not f["unsafe"] and f["pub"]:
                rep.violation("safe|" + i, "%s can be called outside of an unsafe context, although it trusts its caller (%s): %s" % (f["path"], f["loc"], f["sig"]))
        if f["unsafe"] or not f["pub"]:
            continue
        rep.count("safe public functions")
        if f["name"].endswith("_unchecked"):
            rep.violation("unchecked|" + i, "%s skips a check but is safe to call (%s)" % (f["path"], f["loc"]))
        if "body" in f:
            u = unguarded(f)
            if u:
                rep.violation("unguarded|" + site(f), "%s is safe to call but hands what it is given straight to %s (%s)" % (f["path"], u[0], f["loc"]))
        e = exposes(rep, F, f)
        if e:
            rep.violation("exposes|" + site(f), "%s lets safe code replace %s (%s): %s" % (f["path"], e, f["loc"], f["sig"]))
        T = f["T"]
        if "body" in f and any(raw(T, t) for t in f["inputs"]):
            rep.count("functions given raw pointers")
            found, taint = uses(rep, F, raw, f)
            for what, arg in found[:1]:
                n = T[f["inputs"][int(arg.split()[1]) - 1]]
                while n["k"] == "ref":
                    n = T[n["t"]]
                if n["k"] == "adt" and n["p"] in F.adt and not n["p"].startswith("stabby_abi::alloc::Alloc"):
                    rep.violation("fields|" + n["p"], "anyone can write the pointer in the public fields of %s, which %s %s although it is safe to call (%s)" % (n["p"], f["path"], what, f["loc"]))
                    break
                rep.violation("raw|" + site(f), "%s is safe to call but %s a pointer its caller chose (%s; %s): %s" % (f["path"], what, arg, f["loc"], f["sig"]))
            if not found and 0 in taint and not raw(T, f["output"]) and T[f["output"]]["k"] == "adt":
                rep.violation("owns|" + site(f), "%s is safe to call but keeps a pointer its caller chose in its result (%s): %s" % (f["path"], f["loc"], f["sig"]))
    for p in ENCAPSULATED:
        a = F.adt.get("stabby_abi::" + p)
        if a is None:
            continue
        rep.count("encapsulated types")
        for v in a["variants"]:
            for fd in v["fields"]:
                if fd["pub"] and a["pub"]:
                    rep.violation("open|%s|%s" % (p, fd["name"]), "%s.%s is public: its methods rely on what it holds (%s)" % (p, fd["name"], a["loc"]))
    tr = {t["path"]: t for t in F.traits}
    for p, why in PROMISE_TRAITS.items():
        t = tr.get("stabby_abi::" + p)
        if t is None or not t["pub"]:
            continue
        rep.count("traits making promises")
        if not t["unsafe"]:
            rep.violation("trait|" + p, "unsafe code relies on implementors of %s for %s, but implementing it is safe" % (p, why))
    progs = P.parse(os.path.join(C.ROOT, "witness", "programs", "unsafe.txt"))
    P.judge(rep, progs, P.run(progs), "an unsafe operation outside of an unsafe context")
    rep.floor("safe public functions", 400)
    rep.floor("functions of the unsafe table", 60)
    rep.floor("encapsulated types", 20)
    rep.floor("traits making promises", 6)
    return rep
