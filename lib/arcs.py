"""The ledger of shared handles: what every path through the library does to the counts of a shared block.

A handle is a value of one of the four counted types. For every block met on a path the ledger holds, for the strong
and for the weak count, how much the count changed and how many handles were taken in and given out."""
import paths as P
import facts

SYNC = "stabby_abi::alloc::sync::"
HANDLES = {SYNC + "Arc": "S", SYNC + "ArcSlice": "S", SYNC + "Weak": "W", SYNC + "WeakSlice": "W"}
PREFIX = "stabby_abi::alloc::AllocPrefix"
RAW = ("stabby_abi::alloc::AllocPtr", "stabby_abi::alloc::AllocSlice")
ATOMIC = "core::sync::atomic::Atomic"
PURE = (ATOMIC + "::<usize>::new", ATOMIC + "::<*mut T>::new")
ORDS = ("Relaxed", "Release", "Acquire", "AcqRel", "SeqCst")
RMW = ("fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "fetch_max", "fetch_min", "swap")
CAS = ("compare_exchange", "compare_exchange_weak", "fetch_update", "try_update")


def ptr_path(F, adt, tail=()):
    """where the data pointer is inside a handle"""
    a = F.adt.get(adt)
    if a is None:
        return None
    T = a["T"]
    for i, f in enumerate(a["variants"][0]["fields"]):
        tn = T[f["t"]]
        if tn.get("k") == "adt" and tn["p"] in RAW + tuple(HANDLES):
            return (("f", i),) + ptr_path(F, tn["p"])
        if tn.get("k") == "adt" and tn["p"] == "core::ptr::non_null::NonNull":
            return (("f", i),)
    return None


class Model:
    def __init__(self, F):
        self.F = F
        self.path = {h: ptr_path(F, h) for h in tuple(HANDLES) + RAW}
        pre = F.adt[PREFIX]
        names = [f["n"] if "n" in f else f["name"] for f in pre["variants"][0]["fields"]]
        self.strong, self.weak = names.index("strong"), names.index("weak")
        self.alloc, self.origin = names.index("alloc"), names.index("origin")
        self.cache = {}

    def counter(self, t):
        """(kind, block) when `t` points to a count of a block's prefix"""
        if t[0] == "ref" and t[1][0] == "M" and len(t[2]) == 1 and t[2][0][0] == "f":
            b = t[1][1]
            if b[0] == "op" and b[1] == "OffsetBack" and b[3] == ("c", 1):
                k = {self.strong: "S", self.weak: "W"}.get(t[2][0][1])
                if k:
                    return k, b[2]
        return None

    def in_type(self, T, tn, d=0):
        """[(projection, kind, needs)] for the handles a value of this type holds; needs: the options that have to be Some"""
        out = []
        if tn is None or tn.get("k") != "adt" or d > 5:
            return out
        p = tn["p"]
        if p in HANDLES:
            return [(self.path[p], HANDLES[p], ())]
        if p in P.IDENT:
            args = [a["ty"] for a in tn.get("a", []) if "ty" in a] if isinstance(tn.get("a"), list) and tn["a"] and isinstance(tn["a"][0], dict) else [a for a in tn.get("a", []) if isinstance(a, int)]
            return self.in_type(T, T[args[0]], d + 1) if args else out
        args = [a for a in tn.get("a", []) if isinstance(a, int)]
        if p == "core::option::Option" and args:
            for pr, k, needs in self.in_type(T, T[args[0]], d + 1):
                out.append(((("f", 0),) + pr, k, needs + ((),)))
            return out
        a = self.F.adt.get(p)
        if a is None or a.get("kind", "struct") != "struct" and len(a["variants"]) != 1:
            return out
        for i, f in enumerate(a["variants"][0]["fields"]):
            for pr, k, needs in self.in_type(a["T"], a["T"][f["t"]], d + 1):
                out.append(((("f", i),) + pr, k, tuple((("f", i),) + n for n in needs)))
        return out


def order(t):
    """the ordering a term stands for: a name, ("arg", n), or None"""
    if t[0] == "agg" and t[4] in ORDS:
        return t[4]
    if t[0] == "kenum":
        return str(t[3]).rsplit("::", 1)[-1] if str(t[3]).rsplit("::", 1)[-1] in ORDS else None
    if t[0] == "arg":
        return t
    return None


def acquires(o):
    return o in ("Acquire", "AcqRel", "SeqCst") or isinstance(o, tuple)


def releases(o):
    return o in ("Release", "AcqRel", "SeqCst") or isinstance(o, tuple)


def atomic(ev):
    """(operation, cell, operands, orders) of an atomic operation event"""
    if ev[0] != "call" or not ev[1].startswith(ATOMIC + "::"):
        return None
    n = ev[1].rsplit("::", 1)[-1]
    a = ev[2]
    if n == "load":
        return n, a[0], (), (order(a[1]),)
    if n == "store":
        return n, a[0], (a[1],), (order(a[2]),)
    if n in RMW and len(a) == 3:
        return n, a[0], (a[1],), (order(a[2]),)
    if n in ("compare_exchange", "compare_exchange_weak"):
        return n, a[0], (a[1], a[2]), (order(a[3]), order(a[4]))
    if n in ("fetch_update", "try_update"):
        return n, a[0], (a[3],), (order(a[1]), order(a[2]))
    return None


def fence(ev):
    return order(ev[2][0]) if ev[0] == "call" and ev[1] in ("core::sync::atomic::fence",) else None


def subterms(t):
    """every term inside a value, not looking through memory"""
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or not x:
            continue
        yield x
        if x[0] == "agg":
            todo.extend(x[5])
        elif x[0] == "with":
            todo.append(x[1])
            todo.append(x[3])


def lit(st, t):
    return st.lits.get(t)


def equals(st, t, n):
    """whether the path decided t == n: True, False or None"""
    if t == ("c", n):
        return True
    v = st.lits.get(t)
    if isinstance(v, int):
        return v == n
    if isinstance(v, (set, frozenset)) and n in v:
        return False
    for (a, b) in ((("c", n), t), (t, ("c", n))):
        v = st.lits.get(("op", "Eq", a, b))
        if isinstance(v, int):
            return v == 1
        v = st.lits.get(("op", "Ne", a, b))
        if isinstance(v, int):
            return v == 0
    return None


def one_of(st, t, ns):
    r = [equals(st, t, n) for n in ns]
    return True if True in r else False if all(x is False for x in r) else None


def interesting(F):
    """Functions that handle shared blocks: a value of a counted type, or an atomic operation, occurs in their body."""
    out = []
    for f in F.fns:
        if not f.get("body") or "{closure" in f["path"] or f["crate"] != "stabby_abi":
            continue
        T = f["T"]
        if f["path"].endswith("::has_optimal_layout") or (f.get("impl") or {}).get("trait", "").startswith("stabby_abi::istable::"):
            continue
        loc = {T[l]["s"] for l in f["body"]["locals"] if isinstance(l, int)}
        if any("::alloc::sync::" in s or "sync::atomic::Atomic" in s or "arc_btree::" in s for s in loc):
            out.append(f)
    return out


def canon(t):
    """The pointer a term starts with: wrappers have the address of their first field."""
    while True:
        if t[0] == "pj" and t[2] == ("f", 0) and not (t[1][0] == "r" and t[1][2].rsplit("::", 1)[-1] in CAS):
            t = t[1]
        elif t[0] == "ld" and t[2] and t[2][-1] == ("f", 0):
            t = ("ld", t[1], t[2][:-1])
        elif t[0] == "agg" and t[1] == "adt" and t[5] and len(t[5]) >= 1 and (t[2] in RAW or t[2] in HANDLES or t[4] == "Some"):
            t = t[5][0]
        else:
            return t


def is_null(st, t):
    return t == ("c", 0) or st.lits.get(("isnull", t)) == 1 or t[0] == "agg" and t[4] == "None" \
        or st.lits.get(("discr", t)) == 0 and t[0] != "agg"


class Entry:
    def __init__(self):
        self.delta, self.i, self.o, self.notes = {}, {}, {}, []
        self.cell, self.ends, self.inits = False, [], set()

    def add(self, d, k, b, n=1):
        b = canon(b)
        d[(k, b)] = d.get((k, b), 0) + n

    def off(self):
        """{(kind, block): counted - held}"""
        out = {}
        for key in set(self.delta) | set(self.i) | set(self.o):
            out[key] = self.delta.get(key, 0) - (self.o.get(key, 0) - self.i.get(key, 0))
        return out


class Ledger:
    def __init__(self, F, M, eng):
        self.F, self.M, self.E = F, M, eng
        self.bys = {}
        for f in F.fns:
            if f["crate"] == "stabby_abi":
                for tn in f["T"]:
                    if isinstance(tn, dict) and tn.get("k") == "adt":
                        self.bys.setdefault(tn["s"], (f["T"], tn))
                break

    def held(self, st, v, T, tn, args={}):
        """[(kind, block)] for the handles inside a value"""
        out = []
        if v[0] in ("undef", "moved"):
            return out
        slots = self.M.in_type(T, tn) if tn is not None else []
        if slots:
            for pr, k, needs in slots:
                absent = False
                for n in needs:
                    x = P.project(v, n)
                    if x[0] == "agg" and x[4] == "None" or x[0] != "agg" and st.lits.get(("discr", x)) == 0 or is_null(st, canon(x)):
                        absent = True
                if not absent:
                    b = P.project(v, pr)
                    if b[0] != "undef":
                        out.append((k, b))
            return out
        todo = [v]
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] == "agg":
                if x[1] == "adt" and x[2] in HANDLES:
                    out.append((HANDLES[x[2]], P.project(x, self.M.path[x[2]])))
                    continue
                todo.extend(x[5])
            elif x[0] == "with":
                todo.extend((x[1], x[3]))
            elif x[0] == "p":
                todo.extend(x[2:])
            elif x in args:
                out.extend(args[x])
            elif x[0] in ("pj", "arg", "r", "ld"):
                for a, hs in args.items():
                    if any(canon(b) == canon(x) for _, b in hs) and x[0] != "ld":
                        out.extend(h for h in hs if canon(h[1]) == canon(x))
        return out

    def update_of(self, clo, st):
        """what a fetch_update closure does: list of (excluded zero, change) for its Some results; None when unclear"""
        if clo[0] == "ref":
            clo = st.read(clo[1], clo[2])
        if clo[0] != "agg" or clo[1] != "closure":
            return None
        fn = self.E.bykey.get(clo[2])
        if fn is None:
            return None
        x = ("arg", "count")
        s2 = P.State()
        env = clo
        if fn["T"][fn["body"]["locals"][1]].get("k") == "ref":
            r = ("L", -1, 0)
            s2.write(r, (), clo)
            env = ("ref", r, ())
        res = []
        for o in self.E.call_body(s2, fn, [env, x], ()):
            if o.kind != "return":
                continue
            v = o.val
            if v[0] != "agg":
                return None
            if v[4] == "None":
                continue
            n = change(v[5][0], x)
            if n is None:
                return None
            res.append((equals(o.st, x, 0) is False, n))
        return res

    def entry(self, fn, o):
        F, M, st = self.F, self.M, o.st
        T = fn["T"]
        e = Entry()
        args = {}
        for n, ty in enumerate(fn["inputs"]):
            a = ("arg", n + 1)
            hs = self.held(st, a, T, T[ty])
            if M.in_type(T, T[ty]):
                args[a] = hs
            for k, b in hs:
                if st.lits.get(("isnull", b)) == 1:
                    return None
                e.add(e.i, k, b)
        imp = fn.get("impl") or {}
        if fn["name"] == "drop" and (imp.get("trait") or "").split("<")[0] in ("core::ops::drop::Drop", "stabby_abi::fatptr::IPtrOwned"):
            sty = T[imp["self"]] if isinstance(imp.get("self"), int) else None
            place = ("ld", ("arg", 1), ())
            args[place] = self.held(st, place, T, sty) if sty["p"] in HANDLES else []
            for k, b in args[place]:
                e.add(e.i, k, b)
            e.cell = True
        # what initialised a block
        inits = set()
        for (r, p), v in st.mem.items():
            if r[0] == "M" and r[1][0] == "op" and r[1][1] == "OffsetBack" and r[1][3] == ("c", 1):
                for i, k in ((M.strong, "S"), (M.weak, "W")):
                    x = v if p == (("f", i),) else P.project(v, (("f", i),)) if p == () else None
                    if x is not None and x[0] == "p" and x[1].startswith(ATOMIC) and (p != () or ((r, (("f", i),)) not in st.mem)):
                        if x[2][0] == "c":
                            e.add(e.delta, k, r[1][2], x[2][1])
                            inits.add((k, canon(r[1][2])))
                        else:
                            e.notes.append(("unclear", "a count is initialised with %s" % P.show(x[2])))
        for k, b in inits:
            if k == "S":
                e.add(e.o, "W", b)
        ends = []
        for ev in st.events():
            a = atomic(ev)
            if e.cell and ev[0] == "call" and ev[1] == ATOMIC + "::<*mut T>::get_mut" and ev[2][0][0] == "ref" and ev[2][0][1] == ("M", ("arg", 1)):
                res = ("ld", ev[3], ())
                if not is_null(st, res):
                    e.add(e.i, "S", res)
            if a:
                n, cell, ops, _ = a
                kb = M.counter(cell)
                res = ev[3]
                if kb:
                    k, b = kb
                    if n in ("fetch_add", "fetch_sub"):
                        if ops[0][0] != "c":
                            e.notes.append(("unclear", "a count changes by %s" % P.show(ops[0])))
                            continue
                        e.add(e.delta, k, b, ops[0][1] if n == "fetch_add" else -ops[0][1])
                        if k == "S" and n == "fetch_sub" and equals(st, res, ops[0][1]):
                            e.add(e.i, "W", b)
                            ends.append(canon(b))
                        if k == "S" and n == "fetch_add":
                            dead = one_of(st, res, (0, 1 << 63))
                            if dead is not False:
                                if dead:
                                    e.add(e.o, "W", b)
                                e.notes.append(("revives", b, dead))
                    elif n in ("fetch_update", "try_update"):
                        if st.lits.get(("discr", res)) == 0 or equals(st, ("discr", res), 0):
                            u = self.update_of(ops[0], st)
                            if u is None or len({c for _, c in u}) != 1:
                                e.notes.append(("unclear", "what a count is updated to"))
                                continue
                            e.add(e.delta, k, b, u[0][1])
                            if k == "S" and u[0][1] > 0 and not all(z for z, _ in u):
                                e.notes.append(("revives", b, True))
                    elif n in CAS:
                        if equals(st, ("discr", res), 0):
                            c = change(ops[1], ops[0])
                            if c is None:
                                e.notes.append(("unclear", "what a count is exchanged for"))
                                continue
                            e.add(e.delta, k, b, c)
                            if k == "S" and c > 0 and equals(st, ops[0], 0) is not False:
                                e.notes.append(("revives", b, True))
                            if k == "S" and c < 0 and equals(st, ops[0], -c):
                                e.add(e.i, "W", b)
                                ends.append(canon(b))
                    elif n != "load":
                        e.notes.append(("sets", "%s of a count" % n))
                elif cell[0] == "ref" and cell[1][0] == "M" and ev[1].startswith(ATOMIC + "::<*mut"):
                    # a cell that owns a strong handle
                    if n == "load" and e.cell:
                        if not is_null(st, canon(res)):
                            e.add(e.i, "S", res)
                        continue
                    elif n in ("store", "swap"):
                        new, old = ops[0], P.project(res, ()) if n == "swap" else ("lost", cell)
                    elif n in ("compare_exchange", "compare_exchange_weak") and equals(st, ("discr", res), 0):
                        new, old = ops[1], P.project(res, (("f", 0),))
                    else:
                        continue
                    if not is_null(st, canon(new)):
                        e.add(e.o, "S", new)
                    if not is_null(st, canon(old)):
                        e.add(e.i, "S", old)
                continue
            if ev[0] == "drop":
                T2, tn = self.bys.get(ev[4], (T, None))
                for k, b in self.held(st, ev[3], T2, tn, args):
                    e.add(e.delta, k, b, -1)
                    if ev[3][0] == "ld" and ev[3] not in args:
                        e.add(e.i, k, b)
            elif ev[0] == "call":
                c = ev[4]
                if ev[1] == "core::clone::Clone::clone" and ev[2]:
                    x = st.read(ev[2][0][1], ev[2][0][2]) if ev[2][0][0] == "ref" else ev[2][0]
                    x = canon(x)
                    if x[0] == "r" and x[2].startswith(ATOMIC + "::<*mut") or x[0] == "pj" and x[1][0] == "r" and x[1][2].startswith(ATOMIC + "::<*mut"):
                        e.notes.append(("revives", x))
                for i, a in enumerate(ev[2]):
                    tn = c.argty(i)
                    if tn is None or tn.get("k") in ("ref", "ptr", "prim"):
                        continue
                    for k, b in self.held(st, a, c.fr.T, tn, args):
                        e.add(e.o, k, b)
                if "dt" in c.t:
                    for k, b in self.held(st, ev[3], c.fr.T, c.fr.T[c.t["dt"]]):
                        e.add(e.i, k, b)
        if o.kind == "return" and o.val is not None:
            for k, b in self.held(st, o.val, T, T[fn["output"]], args):
                e.add(e.o, k, b)
            e.raw = o.val
        for (r, p), v in st.mem.items():
            if r[0] == "M" and not (r[1][0] == "op" and r[1][1] == "OffsetBack"):
                for k, b in self.held(st, v, T, None, args):
                    e.add(e.o, k, b)
        # a handle known to be the only one stands for the whole block
        for (k, b) in list(e.i):
            if k == "S" and unique(self.M, st, b) and e.delta.get((k, b), 0) == 0 and e.o.get((k, b), 0) < e.i[(k, b)]:
                e.add(e.delta, "S", b, -1)
                e.add(e.i, "W", b)
                ends.append(b)
                if o.val is not None and any(canon(x) == b for x in subterms(o.val)):
                    e.add(e.o, "W", b)
        e.ends = ends
        e.inits = inits
        # fresh blocks that no counted handle ever names belong to another kind of owner
        for k, b in inits:
            if not e.i.get(("S", b)) and not e.o.get(("S", b)):
                for d in (e.delta, e.i, e.o):
                    d.pop(("S", b), None)
                    d.pop(("W", b), None)
        # what an opaque call returns is accounted for by that call
        for key, n in list(e.off().items()):
            if n < 0 and opaque_result(key[1]) and not e.i.get(key):
                e.i[key] = e.i.get(key, 0) - n
        return e


def change(new, old):
    """new - old when new is old plus or minus a constant"""
    if new[0] == "op" and new[1] in ("Add", "Sub") and new[3][0] == "c" and new[2] == old:
        return new[3][1] if new[1] == "Add" else -new[3][1]
    if new[0] == "op" and new[1] == "Add" and new[2][0] == "c" and new[3] == old:
        return new[2][1]
    return None


def unique(M, st, b):
    """whether the path read both counts of a block as one"""
    seen = set()
    for ev in st.events():
        a = atomic(ev)
        if a and a[0] == "load":
            kb = M.counter(a[1])
            if kb and canon(kb[1]) == canon(b) and equals(st, ev[3], 1):
                seen.add(kb[0])
    return seen == {"S", "W"}


def opaque_result(b):
    while b[0] == "pj":
        b = b[1]
    return b[0] == "r" and not b[2].startswith(ATOMIC) or b[0] == "out"


def borrowed(L, fn, st, b):
    """whether a strong handle of the block is lent to the function, or passed to it"""
    T = fn["T"]
    for n, ty in enumerate(fn["inputs"]):
        tn, v = T[ty], ("arg", n + 1)
        while tn.get("k") in ("ref",):
            tn, v = T[tn["t"]], ("ld", v, ()) if v[0] != "ld" else ("ld", v, ())
        if tn.get("p") == "core::option::Option":
            pass
        for k, x in L.held(st, v, T, tn):
            if k == "S" and canon(x) == canon(b):
                return True
        if tn.get("k") == "param":
            return None
    return False


def from_cell(t):
    """whether a value was read from a cell other threads write"""
    return t[0] == "r" and t[2].startswith(ATOMIC + "::<*mut")
