"""C13: on every path of every public operation, counts change by exactly what happens to handles."""
import common as C
import facts
import paths as P
import arcs

# what functions with raw pointers promise: (kind, change of counts minus handles) of the block they are given
RAW = {
    "Arc::<T, Alloc>::from_raw": ("S", -1), "ArcSlice::<T, Alloc>::from_raw": ("S", -1),
    "Weak::<T, Alloc>::from_raw": ("W", -1), "WeakSlice::<T, Alloc>::from_raw": ("W", -1),
    "Arc::<T, Alloc>::increment_strong_count": ("S", 1), "Arc::<T, Alloc>::increment_weak_count": ("W", 1),
    "SharedStableWaker::<Alloc>::drop": ("S", -1), "SharedStableWaker::<Alloc>::wake": ("S", -1),
    "SharedStableWaker::<Alloc>::clone": ("S", 1), "SharedStableWaker::<Alloc>::wake_by_ref": ("S", 0),
}


def contract(fn):
    for suffix, c in RAW.items():
        if fn["path"].endswith("::" + suffix):
            return c
    return None


def judged(fn):
    if fn["name"] == "drop" and (fn.get("impl") or {}).get("trait") or contract(fn):
        return True
    return bool(fn.get("exported"))


def base(t):
    """where a pointer comes from"""
    while t[0] in ("pj", "ld", "op") and isinstance(t[1 if t[0] != "op" else 2], tuple):
        t = t[1] if t[0] != "op" else t[2]
    return t


def raw_input(fn, b):
    """whether the block is named by a raw pointer the caller passed"""
    b = arcs.canon(b)
    if b[0] != "arg" or not isinstance(b[1], int) or b[1] > len(fn["inputs"]):
        return False
    tn = fn["T"][fn["inputs"][b[1] - 1]]
    return tn.get("k") == "ptr" or tn.get("p") in arcs.RAW + ("core::ptr::non_null::NonNull",)


def freed(M, ev):
    """the block an event hands back to its allocator"""
    if ev[0] == "call" and ev[1].rsplit("::", 1)[-1] == "free" and "IAlloc" in ev[1] and len(ev[2]) == 2:
        x = ev[2][1]
        while x[0] == "pj":
            x = x[1]
        if x[0] == "ld" and x[1][0] == "op" and x[1][1] == "OffsetBack" and x[2][:1] == (("f", M.origin),):
            return arcs.canon(x[1][2])
        return ("unknown", x)
    return None


def contents(M, L, st, b):
    """positions of the events that end what a block holds: (index, how)"""
    out = []
    made = {}
    for i, ev in enumerate(st.events()):
        if ev[0] == "call" and ev[2]:
            a0 = arcs.canon(ev[2][0]) if isinstance(ev[2][0], tuple) else None
            if ev[1].endswith("from_raw_parts_mut") or ev[1].endswith("slice_from_raw_parts_mut"):
                made[ev[3]] = a0
            if ev[1] == "<indirect>" and a0 == b:
                out.append((i, "indirect"))
        if ev[0] == "drop" and ev[1] is not None and ev[1][0] == "M" and not ev[2]:
            x = ev[1][1]
            x = made.get(x, x)
            if arcs.canon(x) == b and not handle_type(L, ev[4]):
                out.append((i, "drop"))
        if ev[0] == "ptr_read" and arcs.canon(ev[1]) == b:
            out.append((i, "moved"))
    return out


def handle_type(L, s):
    T, tn = L.bys.get(s, (None, None))
    return tn is not None and tn["p"] in arcs.HANDLES


def plain_contents(F, M, fn):
    """whether what the handles passed to a function point to has nothing to destroy"""
    if any(": core::marker::Copy" in str(p) for p in fn.get("preds") or ()):
        return True
    for ty in fn["inputs"]:
        tn = fn["T"][ty]
        while tn.get("k") == "ref":
            tn = fn["T"][tn["t"]]
        if any(plain(F, T, x) for T, x in handle_types(F, fn["T"], tn)):
            return True
    return False


def plain(F, T, tn):
    a = [x for x in tn.get("a", []) if isinstance(x, int)]
    return bool(a) and T[a[0]].get("k") in ("prim", "ptr") or bool(a) and T[a[0]]["s"] in ("u8", "u16", "u32", "u64", "usize")


def handle_types(F, T, tn, d=0):
    if tn.get("k") != "adt" or d > 4:
        return
    if tn["p"] in arcs.HANDLES:
        yield T, tn
        return
    a = F.adt.get(tn["p"])
    if a and len(a["variants"]) == 1:
        for f in a["variants"][0]["fields"]:
            yield from handle_types(F, a["T"], a["T"][f["t"]], d + 1)


def check():
    r = C.Report("C13", "other", "path analysis of MIR: reference-count ledger with ownership rules")
    F = facts.load()
    M = arcs.Model(F)
    E = P.Engine(F, unwind=True, depth=9, pure=arcs.PURE, limit=3000)
    L = arcs.Ledger(F, M, E)
    undecided, partial, analysed, npaths, cells = [], [], [], 0, {}
    todo = [f for f in arcs.interesting(F) if judged(f)]
    todo += [f for f in F.fns if f.get("body") and contract(f) and f not in todo]
    for fn in todo:
        try:
            outs = E.run(fn)
        except P.TooMany:
            try:
                outs = P.Engine(F, depth=9, pure=arcs.PURE, limit=30000, loops=1).run(fn)
                partial.append(fn["path"])
            except P.TooMany:
                outs = None
        if outs is None:
            undecided.append(fn["path"] + ": more paths than the bound")
            continue
        analysed.append(fn["path"])
        want = contract(fn)
        for o in outs:
            if o.kind not in ("return", "unwind"):
                continue
            e = L.entry(fn, o)
            if e is None:
                continue
            npaths += 1
            st = o.st
            r.count("path balances")
            if e.delta:
                r.count("path that changes a count")
            if e.o or e.i:
                r.count("path with handles")
            promised = {k: sum(n for (x, b), n in e.off().items() if x == k and base(b) == ("arg", 1)) for k in "SW"}
            if want and o.kind == "return":
                r.count("raw pointer contract")
                for k, n in promised.items():
                    if n != (want[1] if k == want[0] else 0):
                        r.violation("%s|%s" % (fn["path"], k), "%s changes the %s count by %+d more than the handles it makes, instead of %+d" % (fn["path"], kind(k), n, want[1] if k == want[0] else 0))
            for (k, b), n in sorted(e.off().items(), key=str):
                if want and base(b) == ("arg", 1):
                    continue
                if n == 0 or o.kind == "unwind" and n > 0:
                    continue
                if raw_input(fn, b):
                    undecided.append("%s: what the raw pointer %s stands for" % (fn["path"], P.show(b)))
                    continue
                r.violation("%s|%s|%s" % (fn["path"], k, "over" if n > 0 else "under"),
                            "%s: on a path that %s, the %s count of %s changes by %d but its handles by %d (%s)" % (
                                fn["path"], "returns" if o.kind == "return" else "unwinds", kind(k), P.show(b),
                                e.delta.get((k, b), 0), e.delta.get((k, b), 0) - n,
                                "a share is never given up" if n > 0 else "a share is given up that nobody holds"))
            for n in e.notes:
                if n[0] == "sets":
                    r.violation(fn["path"] + "|sets", "%s: %s, which forgets the shares that exist" % (fn["path"], n[1]))
                elif n[0] == "unclear":
                    undecided.append("%s: %s" % (fn["path"], n[1]))
                elif n[0] == "revives":
                    b = arcs.canon(n[1])
                    r.count("strong share made")
                    if e.i.get(("S", b)) or arcs.borrowed(L, fn, st, b) or want:
                        continue
                    if plain_contents(F, M, fn):
                        if n[2] is None:
                            r.violation(fn["path"] + "|first", "%s adds a strong share to %s without telling apart that it is the first one, which owns a weak share too" % (fn["path"], P.show(b)))
                        continue
                    if base(b)[0] == "r" and arcs.from_cell(base(b)):
                        r.violation(fn["path"] + "|cell", "%s makes a handle out of a pointer it read from a shared cell: nothing keeps the object alive between the read and the increment" % fn["path"])
                        continue
                    if arcs.borrowed(L, fn, st, b) is None or arcs.opaque_result(b):
                        continue
                    r.violation(fn["path"] + "|revives", "%s adds a strong share to %s without knowing that one still exists" % (fn["path"], P.show(b)))
            for ev in st.events():
                a = arcs.atomic(ev)
                if a and a[1] == ("ref", ("M", ("arg", 1)), a[1][2]) and ev[1].startswith(arcs.ATOMIC + "::<*mut") and (fn.get("impl") or {}).get("self") is not None:
                    self_t = fn["T"][fn["impl"]["self"]]
                    if self_t.get("k") == "adt" and a[0] != "load" and e.o:
                        cells.setdefault(self_t["p"], fn["path"])
            # destruction
            blocks = {b for _, b in list(e.delta) + list(e.i)}
            for b in blocks:
                if b[0] in ("lost",):
                    continue
                ev = st.events()
                cs = contents(M, L, st, b)
                n = len(cs)
                ended = e.ends.count(b)
                fresh = ("S", b) in e.inits
                whole = ended and not cs and any(arcs.canon(x) == b for x in arcs.subterms(o.val)) if o.val is not None else False
                if ended:
                    r.count("last strong share ends")
                    if o.kind == "return" and n != 1 and not whole:
                        r.violation(fn["path"] + "|contents", "%s: when the last strong share of %s ends, what it points to is destroyed %d times" % (fn["path"], P.show(b), n))
                    for i, how in cs:
                        if any(x[0] == "drop" and handle_type(L, x[4]) and ("W", b) in [(k, arcs.canon(y)) for k, y in L.held(st, x[3], *L.bys[x[4]])] for x in ev[:i]):
                            r.violation(fn["path"] + "|late", "%s: the weak share of %s is given up before what it points to is destroyed" % (fn["path"], P.show(b)))
                elif n and not fresh and e.i.get(("S", b), 0) + e.i.get(("W", b), 0):
                    if any(how != "moved" for _, how in cs) or arcs.canon(o.val or ("undef",)) != b:
                        r.violation(fn["path"] + "|early", "%s: what %s points to is destroyed although other strong shares may exist" % (fn["path"], P.show(b)))
            # release
            nfree = {}
            for x in st.events():
                f = freed(M, x)
                if f is not None:
                    nfree[f] = nfree.get(f, 0) + 1
            for b in blocks:
                if ("W", b) not in e.delta and ("W", b) not in e.i:
                    continue
                last = weak_end(M, st, b)
                got = nfree.get(b, 0)
                if last:
                    r.count("last weak share ends")
                if got and not last and b not in e.ends:
                    r.violation(fn["path"] + "|free early", "%s releases the block of %s while weak shares may exist" % (fn["path"], P.show(b)))
                if last and o.kind == "return" and got != 1:
                    r.violation(fn["path"] + "|free", "%s: when the last share of %s ends, its block is released %d times" % (fn["path"], P.show(b), got))
    dropped = {f["T"][f["impl"]["self"]].get("p") for f in F.fns if f["name"] == "drop" and (f.get("impl") or {}).get("trait", "") and "ops::drop::Drop" in f["impl"]["trait"] and f["impl"].get("self") is not None}
    for p, by in sorted(cells.items()):
        r.count("cell that owns a share")
        if p not in dropped:
            r.violation(p + "|cell drop", "%s keeps a share in an atomic cell (%s puts it there) and gives nothing up when it is dropped" % (p, by))
    r.floor("cell that owns a share", 2)
    r.floor("path balances", 400)
    r.floor("path that changes a count", 60)
    r.floor("path with handles", 150)
    r.floor("strong share made", 10)
    r.floor("last strong share ends", 5)
    r.floor("last weak share ends", 2)
    r.coverage = {"functions": sorted(analysed), "paths": npaths, "without unwinding, one round of each loop": partial, "undecided": sorted(set(undecided))}
    r.assumptions = [
        "A call into user code (closures, trait methods of parameters) accounts for the handles it is given and returns.",
        "The memory of a handle behind a reference is not changed by calls that are not given that reference.",
        "Loops are followed for two rounds; functions in `undecided` were not fully enumerated.",
    ]
    return r


def weak_end(M, st, b):
    for ev in st.events():
        a = arcs.atomic(ev)
        if a and a[0] == "fetch_sub":
            kb = M.counter(a[1])
            if kb and kb[0] == "W" and arcs.canon(kb[1]) == b and a[2][0][0] == "c" and arcs.equals(st, ev[3], a[2][0][1]):
                return True
        if a and a[0] in arcs.CAS:
            kb = M.counter(a[1])
            if kb and kb[0] == "W" and arcs.canon(kb[1]) == b and a[0] != "fetch_update" and arcs.equals(st, ("discr", ev[3]), 0) and arcs.equals(st, a[2][0], 1):
                return True
    return False


def kind(k):
    return {"S": "strong", "W": "weak"}[k]
