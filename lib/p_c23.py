"""C23: every path that changes shared contents in place, or hands out the means to, found its handle to be the only one."""
import common as C
import facts
import paths as P
import arcs
import p_c13

OWNING = arcs.RAW


def lent(L, fn, st):
    """{block: kind} for the handles a function is given or lent"""
    T, out = fn["T"], {}
    for n, ty in enumerate(fn["inputs"]):
        tn, v = T[ty], ("arg", n + 1)
        d = 0
        while tn.get("k") == "ref" and d < 3:
            tn, v, d = T[tn["t"]], ("ld", v, ()), d + 1
        for k, b in L.held(st, v, T, tn):
            out[arcs.canon(b)] = k
    return out


def has_mut_ref(T, i, d=0):
    tn = T[i] if isinstance(i, int) else i
    if not isinstance(tn, dict) or d > 6:
        return False
    if tn.get("k") == "ref":
        return bool(tn.get("mut")) or has_mut_ref(T, tn["t"], d + 1)
    if tn.get("k") == "tuple":
        return any(has_mut_ref(T, x, d + 1) for x in tn.get("ts", tn.get("a", [])))
    return any(has_mut_ref(T, x, d + 1) for x in tn.get("a", []) if isinstance(x, int)) if tn.get("k") == "adt" else False


def owner(F, T, i, d=0):
    """whether a type owns a block by itself (and is not one of the counted handles)"""
    tn = T[i] if isinstance(i, int) else i
    if not isinstance(tn, dict) or tn.get("k") != "adt" or d > 6 or tn["p"] in arcs.HANDLES:
        return False
    if tn["p"] in OWNING:
        return d > 0
    a = F.adt.get(tn["p"])
    if a is None:
        return any(owner(F, T, x, d + 1) for x in tn.get("a", []) if isinstance(x, int))
    if not tn["p"].startswith("stabby_abi::alloc::") or "arc_btree" in tn["p"]:
        return any(owner(F, T, x, d + 1) for x in tn.get("a", []) if isinstance(x, int)) if tn["p"].startswith("stabby_abi::result") or tn["p"].startswith("stabby_abi::option") else False
    return any(owner(F, a["T"], f["t"], d + 1) for v in a["variants"] for f in v["fields"])


def block_of(p, blocks):
    """(block, whether inside its prefix) when a pointer leads into one of the blocks"""
    pre = False
    d = 0
    while d < 12:
        d += 1
        c = arcs.canon(p)
        if c in blocks:
            return c, pre
        if p in blocks:
            return p, pre
        if p[0] == "op" and p[1] in ("Offset", "OffsetBack", "Add", "Sub"):
            pre = pre or p[1] == "OffsetBack"
            p = p[2]
        elif p[0] == "ref" and p[1][0] == "M":
            p = p[1][1]
        elif c != p:
            p = c
        elif p[0] == "p" and len(p) > 2 and isinstance(p[2], tuple):
            p = p[2]
        elif p[0] == "agg" and p[5] and p[1] != "closure":
            p = p[5][0]
        else:
            break
    return None, False


def reads(M, st, b):
    """the functions in which the path read both counts of a block as one"""
    out = set()
    for ev in st.events():
        a = arcs.atomic(ev)
        if a and a[0] == "load":
            kb = M.counter(a[1])
            if kb and arcs.canon(kb[1]) == arcs.canon(b) and arcs.equals(st, ev[3], 1):
                fr = ev[4].fr
                out.add(fr.fn["path"])
    return out


def check():
    r = C.Report("C23", "other", "path analysis of MIR: in-place access to shared contents dominated by a sole-ownership test")
    F = facts.load()
    M = arcs.Model(F)
    E = P.Engine(F, unwind=True, depth=9, pure=arcs.PURE, limit=3000)
    L = arcs.Ledger(F, M, E)
    undecided, analysed, npaths, tests = [], [], 0, {}
    for fn in arcs.interesting(F):
        imp = fn.get("impl") or {}
        if not p_c13.judged(fn) or p_c13.contract(fn) or fn.get("unsafe") and not imp.get("trait"):
            continue
        try:
            outs = E.run(fn)
        except P.TooMany:
            try:
                outs = P.Engine(F, depth=9, pure=arcs.PURE, limit=30000, loops=1).run(fn)
            except P.TooMany:
                undecided.append(fn["path"] + ": more paths than the bound")
                continue
        analysed.append(fn["path"])
        mutout = has_mut_ref(fn["T"], fn["output"])
        ownout = owner(F, fn["T"], fn["output"])
        for o in outs:
            if o.kind not in ("return", "unwind"):
                continue
            e = L.entry(fn, o)
            if e is None:
                continue
            st = o.st
            npaths += 1
            blocks = lent(L, fn, st)
            if not blocks:
                continue
            r.count("path with shared contents")
            found = []
            for ev in st.events():
                if ev[0] == "write" and ev[1] is not None and ev[1][0] == "M":
                    b, pre = block_of(ev[1][1], blocks)
                    if b is not None:
                        found.append((b, "writes to %s of a block that other handles may share" % ("the bookkeeping" if pre else "the contents"), "prefix" if pre else "write"))
                elif ev[0] == "ptr_read":
                    b, pre = block_of(ev[1], blocks)
                    if b is not None and not pre and not p_c13.plain_contents(F, M, fn):
                        found.append((b, "moves the contents out of a block that other handles may share", "move"))
                elif ev[0] == "call" and ev[4] is not None and not arcs.atomic(ev):
                    name = ev[1].rsplit("::", 1)[-1]
                    if name in ("free", "drop_in_place", "drop", "realloc"):
                        continue
                    for i, x in enumerate(ev[2]):
                        if not isinstance(x, tuple) or x[0] != "ref" or x[1][0] != "M":
                            continue
                        ty = ev[4].argty(i)
                        if not isinstance(ty, dict) or ty.get("k") != "ref" or not ty.get("mut"):
                            continue
                        b, pre = block_of(x[1][1], blocks)
                        if b is not None and (x[2] == () or not pre):
                            found.append((b, "passes %s a mutable reference into a block that other handles may share" % name, "pass"))
            if o.kind == "return" and o.val is not None:
                if mutout:
                    from_block = {}
                    for ev in st.events():
                        if ev[0] == "call" and ev[4] is not None and "dt" in ev[4].t and isinstance(ev[3], tuple):
                            tn = ev[4].fr.T[ev[4].t["dt"]]
                            if has_mut_ref(ev[4].fr.T, tn):
                                for x in ev[2]:
                                    b = from_block.get(x) or block_of(x, blocks)[0] if isinstance(x, tuple) else None
                                    if b is not None:
                                        from_block[ev[3]] = b
                    for x in arcs.subterms(o.val):
                        b = from_block.get(x)
                        if b is None and x[0] in ("ref", "ld", "pj") and not (x[0] == "ref" and x[1][0] == "L"):
                            b, _ = block_of(x, blocks)
                        if b is not None:
                            found.append((b, "hands out a mutable reference to contents that other handles may share", "out"))
                if ownout:
                    for x in arcs.subterms(o.val):
                        if x[0] == "agg" and x[1] == "adt" and owning(F, x[2]):
                            for y in arcs.subterms(x):
                                c = arcs.canon(y)
                                if c in blocks:
                                    found.append((c, "gives a block that other handles may share to an owner of its own", "own"))
                                    break
            for b, what, key in found:
                if b in e.ends and not arcs.unique(M, st, b) and key != "out":
                    continue
                r.count({"write": "write to contents", "prefix": "write to bookkeeping", "move": "contents moved out", "pass": "mutable reference passed on", "out": "mutable reference handed out", "own": "block given to an owner"}[key])
                if arcs.unique(M, st, b):
                    for f in reads(M, st, b):
                        tests.setdefault(f, fn["path"])
                    continue
                r.violation("%s|%s" % (fn["path"], key), "%s %s, without having found its handle to be the only one" % (fn["path"], what))
    if tests:
        r.count("test of sole ownership", len(tests))
        f, by = sorted(tests.items())[0]
        r.violation("shared handles|two reads", "sole ownership is concluded from reading the two counts one after the other (%s, for %s and others): a weak handle upgraded, or a strong one downgraded, on another thread in between goes unnoticed" % (f, by))
    # strong handles are never declared to give mutable access unconditionally
    mut_traits = ("core::ops::deref::DerefMut", "core::convert::AsMut", "core::borrow::BorrowMut", "stabby_abi::fatptr::IPtrMut", "core::ops::index::IndexMut")
    for im in F.impls:
        tr = (im.get("trait") or "").split("<")[0]
        s = im.get("self")
        tn = im["T"][s] if isinstance(s, int) and "T" in im else None
        name = tn.get("p") if isinstance(tn, dict) else im.get("self_s", "")
        if name in arcs.HANDLES:
            r.count("impl for a shared handle")
            if tr in mut_traits:
                r.violation("%s for %s" % (tr, name), "%s implements %s: safe code can change what it shares" % (name, tr))
    r.floor("path with shared contents", 300)
    r.floor("mutable reference handed out", 5)
    r.coverage = {"functions": sorted(analysed), "paths": npaths, "undecided": sorted(set(undecided))}
    r.assumptions = [
        "Contents with interior mutability are outside the property.",
        "Unsafe functions that are not trait methods leave the obligation to their caller (C25 keeps them unsafe).",
    ]
    return r


def owning(F, p):
    a = F.adt.get(p)
    return a is not None and p.startswith("stabby_abi::alloc::") and p not in arcs.RAW and p not in arcs.HANDLES and any(
        a["T"][f["t"]].get("p") in arcs.RAW for v in a["variants"] for f in v["fields"])
