"""C14: every atomic operation, on every path it lies on, carries the ordering its role on that path needs."""
import common as C
import facts
import paths as P
import arcs
import p_c13

POINTER = arcs.ATOMIC + "::<*mut T>"


def inside(t, x):
    """whether x occurs anywhere in t"""
    todo = [t]
    while todo:
        y = todo.pop()
        if y == x:
            return True
        if isinstance(y, tuple):
            todo.extend(y)
    return False


def dereferenced(st, evs, i, r, val):
    """whether a pointer read at event i is used as more than a number afterwards"""
    for ev in evs[i + 1:]:
        if ev[0] == "call":
            a = arcs.atomic(ev)
            if a and a[1][0] == "ref" and inside(a[1][1], r):
                return True
            if ev[1] == "core::clone::Clone::clone" and ev[2] and ev[2][0][0] == "ref":
                if inside(st.read(ev[2][0][1], ev[2][0][2]), r) or inside(ev[2][0][1], r):
                    return True
            if not a and any(isinstance(x, tuple) and deref_in(st, x, r) for x in ev[2]):
                return True
        elif ev[0] in ("drop", "write") and ev[1] is not None and inside(ev[1], r):
            return True
        elif ev[0] == "drop" and inside(ev[3], r):
            return True
    return val is not None and any(x[0] == "agg" and x[1] == "adt" and x[2] in arcs.HANDLES and inside(x, r) for x in arcs.subterms(val))


def deref_in(st, t, r):
    todo = [t]
    while todo:
        y = todo.pop()
        if not isinstance(y, tuple):
            continue
        if y and y[0] == "ref" and y[1][0] == "M" and inside(y[1], r) or y and y[0] == "ld" and inside(y[1], r):
            return True
        if y and y[0] == "agg" and y[1] == "adt" and y[2] in arcs.HANDLES and inside(y, r):
            return True
        todo.extend(y)
    return False


def published(F):
    """{type: [index of the cell, index of its state]} for types that share a cell under an atomic state"""
    out = {}
    for p, a in F.adt.items():
        if not p.startswith("stabby_abi::") or len(a["variants"]) != 1:
            continue
        fs = [a["T"][f["t"]] for f in a["variants"][0]["fields"]]
        cells = [i for i, t in enumerate(fs) if t.get("p") == "core::cell::UnsafeCell"]
        state = [i for i, t in enumerate(fs) if t.get("k") == "adt" and t["p"].startswith("core::sync::atomic::Atomic") and t["p"] != "core::sync::atomic::AtomicPtr"]
        if cells and state:
            out[p] = (cells, state)
    return out


def self_adt(fn):
    imp = fn.get("impl") or {}
    if imp.get("self") is None:
        return None
    return fn["T"][imp["self"]].get("p")


def check():
    r = C.Report("C14", "other", "path analysis of MIR: role of every atomic operation against its ordering")
    F = facts.load()
    M = arcs.Model(F)
    E = P.Engine(F, unwind=True, depth=9, pure=arcs.PURE, limit=3000)
    L = arcs.Ledger(F, M, E)
    shared = published(F)
    undecided, analysed, npaths, sites = [], [], 0, set()

    def site(ev):
        sites.add((ev[4].fr.fn["path"], ev[1].rsplit("::", 1)[-1]))
        return ev[4].fr.fn["path"]

    names = {}
    marks, readable = [], {}
    for fn in arcs.interesting(F) + [f for f in F.fns if f.get("body") and p_c13.contract(f)]:
        if fn["path"] in names:
            continue
        names[fn["path"]] = 1
        try:
            outs = E.run(fn)
        except P.TooMany:
            try:
                outs = P.Engine(F, depth=9, pure=arcs.PURE, limit=2000, loops=1).run(fn)
            except P.TooMany:
                undecided.append(fn["path"] + ": more paths than the bound")
                continue
        analysed.append(fn["path"])
        exclusive = False
        if fn["inputs"] and (fn.get("impl") or {}).get("self") is not None:
            t0 = fn["T"][fn["inputs"][0]]
            exclusive = t0.get("k") == "ref" and bool(t0.get("mut"))
        handle_self = self_adt(fn) in arcs.HANDLES
        for o in outs:
            npaths += 1
            st = o.st
            evs = list(st.events())
            ownwrite = {}
            claimed = False
            seen_acq = set()
            for i, ev in enumerate(evs):
                a = arcs.atomic(ev)
                if not a:
                    if ev[0] == "write" and ev[1] is not None and ev[1][0] == "M" and ev[1][1] == ("arg", 1) and not exclusive:
                        sh = shared.get(self_adt(fn))
                        if sh and ev[2][:1] and ev[2][0][0] == "f" and ev[2][0][1] in sh[0]:
                            ownwrite[ev[2][0][1]] = i
                            r.count("cell filled")
                            if not claimed:
                                r.violation(fn["path"] + "|claim", "%s fills a shared cell without having claimed it: two threads may fill it at once" % fn["path"])
                    continue
                op, cell, ops, orders = a
                where = site(ev)
                kb = M.counter(cell)
                res = ev[3]
                if kb:
                    k, b = kb
                    if op == "fetch_sub" or op in arcs.CAS and op not in ("fetch_update", "try_update") and arcs.equals(st, ("discr", res), 0) and (arcs.change(ops[1], ops[0]) or 0) < 0:
                        r.count("share given up")
                        if not arcs.releases(orders[0]):
                            r.violation(where + "|release " + k, "%s gives up a %s share with %s: what the other owners must see before the object is destroyed is not released" % (where, p_c13.kind(k), orders[0]))
                        last = op == "fetch_sub" and ops[0][0] == "c" and arcs.equals(st, res, ops[0][1]) or op != "fetch_sub" and arcs.equals(st, ops[0], 1)
                        ends = [j for j, e2 in enumerate(evs) if j > i and ends_object(M, L, st, e2, arcs.canon(b))]
                        if last and ends:
                            r.count("last share acquires")
                            if not arcs.acquires(orders[0]) and not any(fenced(M, x, k, b) for x in evs[i + 1:ends[0]]):
                                r.violation(where + "|acquire " + k, "%s: the last %s share is given up with %s and the object is destroyed without acquiring what other owners did to it" % (where, p_c13.kind(k), orders[0]))
                    elif op == "load":
                        if arcs.equals(st, res, 1) or o.val is not None and compares_to_one(o.val, res):
                            r.count("told it is the only owner")
                            if not arcs.acquires(orders[0]) and not any(fenced(M, x, k, b) for x in evs[i + 1:]):
                                r.violation(where + "|sole " + k, "%s: the %s count is read as one with %s: nothing the former owners did is acquired" % (where, p_c13.kind(k), orders[0]))
                    continue
                if ev[1].startswith(arcs.ATOMIC + "::<*mut"):
                    own = exclusive and cell[0] == "ref" and cell[1] == ("M", ("arg", 1))
                    if own:
                        r.count("cell nobody shares")
                        continue
                    reads = []
                    if op in ("load", "swap"):
                        reads = [(res, orders[0])]
                    elif op in ("compare_exchange", "compare_exchange_weak") and not arcs.equals(st, ("discr", res), 0):
                        reads = [(P.project(res, (("f", 0),)), orders[1])]
                    elif op in ("fetch_update", "try_update"):
                        undecided.append("%s: %s of a pointer" % (where, op))
                    for x, od in reads:
                        if dereferenced(st, evs, i, x, o.val):
                            r.count("pointer read to be followed")
                            caller(r, fn, where, od, arcs.acquires, "load" if op == "load" else op + " failure", "reads a pointer other threads publish with %s and follows it")
                    new = ops[0] if op in ("store", "swap") else ops[1] if op in ("compare_exchange", "compare_exchange_weak") and arcs.equals(st, ("discr", res), 0) else None
                    if new is not None and not arcs.is_null(st, arcs.canon(new)):
                        r.count("pointer published")
                        caller(r, fn, where, orders[0], arcs.releases, op + " success", "publishes a pointer with %s")
                    if op in ("compare_exchange", "compare_exchange_weak") and isinstance(orders[0], tuple) and isinstance(orders[1], tuple) and orders[0][1] >= orders[1][1]:
                        r.violation(where + "|swapped", "%s exchanges with the failure ordering its caller gave for success" % where)
                    continue
                sh = shared.get(self_adt(fn))
                if sh and cell[0] == "ref" and cell[1] == ("M", ("arg", 1)) and cell[2][:1] and cell[2][0][1] in sh[1]:
                    if op in ("load", "swap") and arcs.acquires(orders[0]) and isinstance(st.lits.get(res), int):
                        seen_acq.add(st.lits[res])
                    if op in arcs.CAS and len(ops) > 1 and arcs.equals(st, ("discr", res), 0) and ops[0] != ops[1]:
                        claimed = True
                        if ops[1][0] == "c":
                            marks.append((self_adt(fn), ops[1][1], any(j is not None for j in ownwrite.values()), where))
                    if op == "swap" and ops[0][0] == "c" and st.lits.get(res) not in (None, ops[0][1]):
                        claimed = True
                    if op in ("store", "swap"):
                        if ops[0][0] == "c":
                            marks.append((self_adt(fn), ops[0][1], bool(ownwrite), where))
                        for c, j in ownwrite.items():
                            r.count("cell published")
                            if not arcs.releases(orders[0]):
                                r.violation(where + "|publish", "%s publishes the state of a cell it just filled with %s" % (where, orders[0]))
                        ownwrite = {c: None for c in ownwrite}
                    continue
                undecided.append("%s: role of %s %s" % (where, ev[1].split("::", 3)[-1], "/".join(map(str, orders))))
            sh = shared.get(self_adt(fn))
            if sh and o.val is not None and not exclusive and o.kind == "return":
                for x in terms(o.val):
                    if x[0] in ("ref",) and x[1] == ("M", ("arg", 1)) and x[2][:1] and x[2][0][0] == "f" and x[2][0][1] in sh[0]:
                        r.count("cell read")
                        if x[2][0][1] not in ownwrite and not seen_acq:
                            r.violation(fn["path"] + "|read", "%s hands out the contents of a shared cell without acquiring the state that says they are there" % fn["path"])
                        if x[2][0][1] not in ownwrite:
                            readable.setdefault(self_adt(fn), set()).update(seen_acq)
                        if ownwrite.get(x[2][0][1]) is not None:
                            r.violation(fn["path"] + "|unpublished", "%s fills a shared cell and returns without publishing it" % fn["path"])
    for adt, v, filled, where in marks:
        if v in readable.get(adt, ()):
            r.count("cell declared readable")
            if not filled:
                r.violation(where + "|early", "%s declares a shared cell readable on a path that has not filled it yet" % where)
    # orderings named by the callers of operations that take one
    for fn in F.fns:
        if fn["crate"] != "stabby_abi" or not fn.get("body"):
            continue
        for where, name, ords in named_orders(fn):
            for good, o in zip(ROLES[name], ords):
                r.count("ordering named by a caller")
                if o is None:
                    undecided.append("%s: the ordering given to %s" % (where, name))
                elif not good(o):
                    r.violation("%s|calls %s" % (where, name), "%s calls %s with %s" % (where, name, o))
    r.floor("ordering named by a caller", 4)
    r.floor("share given up", 10)
    r.floor("last share acquires", 5)
    r.floor("told it is the only owner", 6)
    r.floor("pointer read to be followed", 5)
    r.floor("pointer published", 3)
    r.floor("cell published", 1)
    r.floor("cell read", 2)
    r.floor("cell filled", 1)
    r.floor("cell declared readable", 1)
    r.coverage = {"functions": sorted(analysed), "paths": npaths, "atomic operations": sorted("%s: %s" % s for s in sites), "undecided": sorted(set(undecided))}
    r.assumptions = [
        "The C++11 memory model as Rust uses it; SeqCst counts as both acquire and release.",
        "Operations on a value behind an exclusive reference have no concurrent counterpart.",
        "Where a public operation takes an ordering, that ordering is used for the role it is named after (listed as a known finding when it can be too weak).",
    ]
    return r


CELL = arcs.SYNC + "AtomicArc::<T, Alloc>::"
ROLES = {"load": (arcs.acquires,), "is": (arcs.acquires,), "store": (arcs.releases,), "compare_exchange": (arcs.releases, arcs.acquires)}


def named_orders(fn):
    """(function, operation, orderings) for the calls to operations of atomic shared pointers that take an ordering"""
    made = {}
    for b in fn["body"]["blocks"]:
        for st in b["s"]:
            if st["k"] == "=" and not st["p"]["p"]:
                l, x = st["p"]["l"], st["r"]
                v = None
                if x["k"] == "agg" and x.get("adt") == "core::sync::atomic::Ordering":
                    v = x["vname"]
                elif x["k"] == "use" and isinstance(x.get("x"), dict):
                    src = x["x"].get("move") or x["x"].get("copy")
                    if src and not src["p"]:
                        v = ("l", src["l"])
                made.setdefault(l, []).append(v)
    def value(op, d=0):
        src = op.get("move") or op.get("copy") if isinstance(op, dict) else None
        if not src or src["p"] or d > 4:
            return None
        vs = made.get(src["l"])
        if vs is None:
            return ("arg", src["l"]) if 1 <= src["l"] <= len(fn["inputs"]) else None
        if len(vs) != 1:
            return None
        return value({"copy": {"l": vs[0][1], "p": []}}, d + 1) if isinstance(vs[0], tuple) else vs[0]
    for b in fn["body"]["blocks"]:
        t = b["t"]
        if t["k"] != "call":
            continue
        f = (t["f"].get("const") or {}).get("fn") if isinstance(t["f"], dict) else None
        if f and f.get("p", "").startswith(CELL) and f["p"][len(CELL):] in ROLES:
            n = f["p"][len(CELL):]
            yield fn["path"], n, [value(x) for x in t["args"][-len(ROLES[n]):]]


def caller(r, fn, where, od, good, key, msg):
    if isinstance(od, tuple):
        r.violation("%s|%s|caller's ordering" % (where, key), "%s %s" % (where, msg % "whatever ordering its caller names, Relaxed included"))
    elif not good(od):
        r.violation("%s|%s" % (where, key), "%s %s" % (where, msg % od))


def terms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield x
            todo.extend(y for y in x if isinstance(y, tuple))


def compares_to_one(v, res):
    for x in terms(v):
        if x[0] == "op" and x[1] in ("Eq", "Ne") and ("c", 1) in x[2:] and res in x[2:]:
            return True
    return False


def fenced(M, ev, k, b):
    if arcs.acquires(arcs.fence(ev) or ""):
        return True
    a = arcs.atomic(ev)
    if a and a[0] != "store":
        kb = M.counter(a[1])
        return bool(kb and kb[0] == k and arcs.canon(kb[1]) == arcs.canon(b) and arcs.acquires(a[3][0]))
    return False


def ends_object(M, L, st, ev, b):
    """events that destroy what a block holds, or release it, or hand its weak share to be given up"""
    if p_c13.freed(M, ev) == b:
        return True
    if ev[0] == "drop" and ev[1] is not None and ev[1][0] == "M" and not ev[2]:
        return True
    if ev[0] == "call" and ev[1] == "<indirect>":
        return True
    return ev[0] == "drop" and p_c13.handle_type(L, ev[4]) and any(arcs.canon(y) == b for _, y in L.held(st, ev[3], *L.bys[ev[4]]))
