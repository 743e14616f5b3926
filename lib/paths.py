"""Path-sensitive dataflow over generic MIR.

Walks every control-flow path of a function (each loop body at most `loops` times), keeping for each place the
value that reaches it as a structural term, the branch literals that were decided, and the calls, drops and
memory effects met in order. Calls to bodies we have are followed, calls to user code and to foreign code stay
opaque. Nothing is solved: a branch is pruned only when its very term was already decided on the path.
"""
import mir as M


class TooMany(Exception):
    pass


# wrappers that are, in memory, exactly one of their fields
IDENT = {
    "core::mem::manually_drop::ManuallyDrop": 0, "core::mem::maybe_dangling::MaybeDangling": 0,
    "core::mem::maybe_uninit::MaybeUninit": 1,
    "core::ptr::non_null::NonNull": 0, "core::ptr::unique::Unique": 0, "core::cell::UnsafeCell": 0,
    "core::pin::Pin": 0, "core::cell::Cell": 0,
}
UNIT = ("agg", "tuple", None, None, None, ())
TRUE, FALSE = ("c", 1), ("c", 0)


def agg(adt, v, vname, xs):
    return ("agg", "adt", adt, v, vname, tuple(xs))


def some(x):
    return agg("core::option::Option", 1, "Some", (x,))


NONE = agg("core::option::Option", 0, "None", ())


def is_ident(tn, f):
    return tn.get("k") == "adt" and tn.get("p") in IDENT


def startswith(proj, pre):
    return proj[:len(pre)] == pre


def project(v, proj):
    for n, e in enumerate(proj):
        k = v[0]
        if k == "agg":
            if e[0] == "v":
                continue
            if e[0] == "f":
                if e[1] < len(v[5]):
                    v = v[5][e[1]]
                    continue
                return ("undef",)
            if e[0] == "i" and v[1] == "array" and e[1][0] == "c" and e[1][1] < len(v[5]):
                v = v[5][e[1][1]]
                continue
            v = ("pj", v, e)
        elif k == "with":
            _, base, rel, val = v
            rest = proj[n:]
            # variant steps don't change which memory is meant
            r1 = tuple(x for x in rest if x[0] != "v")
            l1 = tuple(x for x in rel if x[0] != "v")
            if startswith(r1, l1):
                return project(val, r1[len(l1):])
            if startswith(l1, r1):
                return ("with", project(base, rest), l1[len(r1):], val)
            v = project(base, (e,))
        elif k in ("undef", "moved"):
            return ("undef",)
        elif e[0] == "v":
            continue
        elif k == "ld":
            v = ("ld", v[1], v[2] + (e,))
        else:
            v = ("pj", v, e)
    return v


def update(v, rel, val):
    rel = tuple(x for x in rel if x[0] != "v")
    if not rel:
        return val
    if v[0] == "agg" and rel[0][0] == "f" and rel[0][1] < len(v[5]):
        xs = list(v[5])
        xs[rel[0][1]] = update(xs[rel[0][1]], rel[1:], val)
        return v[:5] + (tuple(xs),)
    if v[0] == "with" and startswith(v[2], rel):
        return update(v[1], rel, val)
    return ("with", v, rel, val)


class State:
    __slots__ = ("places", "lits", "ev", "n", "dv")

    def __init__(self):
        self.places, self.lits, self.ev, self.n, self.dv = {}, {}, None, 0, {}

    @property
    def mem(self):
        return {(r, p): v for r, d in self.places.items() for p, v in d.items()}

    def copy(self):
        s = State()
        s.places, s.lits, s.ev, s.n, s.dv = dict(self.places), dict(self.lits), self.ev, self.n, dict(self.dv)
        return s

    def event(self, e):
        self.ev = (self.ev, e)

    def events(self):
        out, e = [], self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def fresh(self):
        self.n += 1
        return self.n

    # --- memory
    def read(self, root, proj):
        m = self.places.get(root)
        proj = tuple(x for x in proj if x[0] != "v")
        base = ("ld", root[1], proj) if root[0] == "M" else ("undef",)
        if not m:
            return base
        for i in range(len(proj), -1, -1):
            b = m.get(proj[:i])
            if b is not None:
                return project(b, proj[i:])
        deeper = [(p, v) for p, v in m.items() if len(p) > len(proj) and startswith(p, proj)]
        if root[0] != "M":
            deeper.sort(key=lambda x: repr(x[0]))
        for p, v in deeper:
            base = ("with", base, p[len(proj):], v)
        return base

    def write(self, root, proj, val):
        # the inner dictionaries are shared between copies of a state: they are replaced, never changed
        m = self.places.get(root)
        proj = tuple(x for x in proj if x[0] != "v")
        if m is None:
            self.places[root] = {proj: val}
            return
        for i in range(len(proj) - 1, -1, -1):
            b = m.get(proj[:i])
            if b is not None:
                m = dict(m)
                m[proj[:i]] = update(b, proj[i:], val)
                self.places[root] = m
                return
        m = {p: v for p, v in m.items() if not (len(p) > len(proj) and startswith(p, proj))}
        m[proj] = val
        self.places[root] = m

    def havoc(self, root, proj, val):
        self.write(root, proj, val)

    # --- literals
    def decide(self, t):
        """The constant a term is known to be on this path, or None."""
        if t[0] == "c":
            return t[1]
        if t[0] == "not":
            x = self.decide(t[1])
            return None if x is None else int(not x)
        x = self.lits.get(t)
        if isinstance(x, int):
            return x
        return None

    def assume(self, t, val):
        """Records t == val; False if it contradicts the path."""
        while t[0] == "not":
            t, val = t[1], int(not val)
        if t[0] == "c":
            return t[1] == val
        x = self.lits.get(t)
        if isinstance(x, int):
            return x == val
        if isinstance(x, frozenset) and val in x:
            return False
        self.lits[t] = val
        return True

    def exclude(self, t, vals):
        neg = False
        while t[0] == "not":
            t, neg = t[1], not neg
        if neg:
            vals = [int(not v) for v in vals]
        if t[0] == "c":
            return t[1] not in vals
        x = self.lits.get(t)
        if isinstance(x, int):
            return x not in vals
        ex = frozenset(vals) | (x if isinstance(x, frozenset) else frozenset())
        dom = self.dv.get(t)
        if dom is not None:
            left = [d for d in dom if d not in ex]
            if not left:
                return False
            if len(left) == 1:
                self.lits[t] = left[0]
                return True
        self.lits[t] = ex
        return True


class Outcome:
    __slots__ = ("kind", "st", "val", "why")

    def __init__(self, kind, st, val=None, why=None):
        self.kind, self.st, self.val, self.why = kind, st, val, why


class Engine:
    def __init__(self, F, unwind=False, depth=6, loops=2, limit=4000, inline=None, hook=None, drop_hook=None, pure=()):
        self.F = F
        self.bykey = {}
        for f in F.fns:
            if f.get("body"):
                self.bykey[f["key"]] = f
        for f in getattr(F, "foreign", []):
            self.bykey.setdefault(f["key"], f)
        self.unwind, self.depth, self.loops, self.limit = unwind, depth, loops, limit
        self.inline, self.hook, self.drop_hook = inline, hook, drop_hook
        self.pure = set(pure)
        self.fid = 0
        self.steps = 0
        self.cut = 0

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, st=None):
        self.steps = 0
        self.cut = 0
        st = st or State()
        b = fn["body"]
        if args is None:
            args = [("arg", i) for i in range(1, b["argc"] + 1)]
        return self.call_body(st, fn, args, ())

    def call_body(self, st, fn, args, stack):
        self.fid += 1
        fr = Frame(self, fn, ("L", self.fid), stack)
        b = fn["body"]
        for i, a in enumerate(args):
            st.write(fr.root(i + 1), (), a)
        return fr.walk(st, 0, {})


def root_of(t):
    """memory behind an opaque pointer"""
    return ("M", t)


def newint(n):
    return ("c", n)


CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b,
       "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}
ARI = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "BitAnd": lambda a, b: a & b,
       "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b, "Shl": lambda a, b: a << b, "Shr": lambda a, b: a >> b}


def binop(op, a, b):
    op = op.replace("Unchecked", "")
    if a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
        if op in CMP:
            return newint(int(CMP[op](a[1], b[1])))
        if op in ARI and not (op in ("Shl", "Shr") and b[1] > 127):
            r = ARI[op](a[1], b[1])
            if 0 <= r < 1 << 64:
                return newint(r)
        if op in ("Div", "Rem") and b[1]:
            return newint(a[1] // b[1] if op == "Div" else a[1] % b[1])
    if op == "Ne":
        return ("not", binop("Eq", a, b))
    if op == "Ge":
        return ("not", binop("Lt", a, b))
    if op == "Gt":
        return binop("Lt", b, a)
    if op == "Le":
        return ("not", binop("Lt", b, a))
    if op == "Eq":
        if a == b:
            return TRUE
        if repr(a) > repr(b):
            a, b = b, a
    if op in ("Add", "Offset") and b == ("c", 0):
        return a
    if op == "Sub" and b == ("c", 0):
        return a
    return ("op", op, a, b)


class Frame:
    def __init__(self, eng, fn, rid, stack):
        self.e, self.fn, self.rid, self.stack = eng, fn, rid, stack
        self.T = fn["T"]
        self.body = fn["body"]

    def root(self, l):
        return ("L", self.rid[1], l)

    # ---------------------------------------------------------- places
    def resolve(self, st, place):
        root, proj = self.root(place["l"]), ()
        cur = self.body["locals"][place["l"]]
        for el in place["p"]:
            n = self.T[cur] if cur is not None else {}
            if el == "*":
                v = st.read(root, proj)
                root, proj = self.target(v)
            elif "f" in el:
                if not is_ident(n, el["f"]):
                    if n.get("box"):
                        pass
                    else:
                        proj = proj + (("f", el["f"]),)
            elif "v" in el:
                proj = proj + (("v", el["v"]),)
            elif "idx" in el:
                proj = proj + (("i", st.read(self.root(el["idx"]), ())),)
            elif "cidx" in el:
                proj = proj + (("i", ("c", el["cidx"]) if not el.get("end") else ("end", el["cidx"])),)
            elif "sub" in el:
                proj = proj + (("sub", tuple(el["sub"]), bool(el.get("end"))),)
            else:
                proj = proj + (("?", str(el)),)
            cur = M.step(self.T, cur, el)
        return root, proj

    def target(self, v):
        if v[0] == "ref":
            return v[1], v[2]
        return root_of(v), ()

    def operand(self, st, o):
        p = o.get("copy") or o.get("move")
        if p is not None:
            r, q = self.resolve(st, p)
            return st.read(r, q)
        c = o.get("const")
        if c is None:
            return FALSE if "UbChecks" in str(o) else ("k", str(o))
        return self.const(c)

    def const(self, c):
        f = c.get("fn") or c.get("fnptr")
        if f is not None:
            self.e_fn(f)
            return ("fn", f.get("rkey") or f.get("key"), f.get("p") or f.get("rp"), FnInfo(f, self.T))
        if "bits" in c:
            t = self.T[c["ty"]]
            if t.get("k") == "adt" and t.get("ak") == "enum":
                return ("kenum", t["p"], c["bits"], c.get("text", ""))
            return ("c", c["bits"])
        if "static" in c:
            return ("static", c["static"])
        if self.T[c["ty"]]["s"] == "()":
            return UNIT
        t = self.T[c["ty"]]
        if t.get("k") == "closure":
            return ("agg", "closure", t["p"], None, None, ())
        return ("k", c.get("str", c.get("bytes", c.get("text", ""))), t["s"])

    def e_fn(self, f):
        pass

    # ---------------------------------------------------------- rvalues
    def rvalue(self, st, r, t):
        k = r["k"]
        if k == "use":
            return self.operand(st, r["x"])
        if k in ("ref", "raw"):
            root, proj = self.resolve(st, r["p"])
            if root[0] == "M" and not proj:
                return root[1]
            return ("ref", root, proj)
        if k == "cast":
            x = self.operand(st, r["x"])
            ck = r["ck"]
            if ck.startswith("IntToInt"):
                return x if x[0] == "c" else ("cast", x, self.T[r["t"]]["s"])
            if ck.startswith(("PointerExpose",)):
                return ("addr", x)
            if ck.startswith(("PointerWithExposed",)):
                return x[1] if x[0] == "addr" else ("ptrof", x)
            if ck.startswith(("Transmute", "PtrToPtr", "PointerCoercion", "FnPtr", "Subtype")):
                return self.transmute(x, self.T[r["t"]])
            return ("cast", x, self.T[r["t"]]["s"])
        if k == "bin":
            x, y = self.operand(st, r["x"]), self.operand(st, r["y"])
            op = r["op"]
            if op.endswith("WithOverflow"):
                v = binop(op[:-12], x, y)
                return ("agg", "tuple", None, None, None, (v, FALSE if v[0] == "c" else ("ovf", v)))
            if op in ("BitAnd", "BitOr") and self.T[t]["s"] == "bool":
                for u, v in ((x, y), (y, x)):
                    d = st.decide(u)
                    if d is not None:
                        return (v if d == 1 else FALSE) if op == "BitAnd" else (TRUE if d == 1 else v)
            return binop(op, x, y)
        if k == "un":
            x = self.operand(st, r["x"])
            if r["op"] == "Not":
                if self.T[t]["s"] == "bool":
                    return ("c", int(not x[1])) if x[0] == "c" else (x[1] if x[0] == "not" else ("not", x))
                return ("op", "BitNot", x, UNIT)
            return ("op", r["op"], x, UNIT)
        if k == "discr":
            root, proj = self.resolve(st, r["p"])
            v = st.read(root, proj)
            return self.discr(st, v, r.get("variants"))
        if k == "agg":
            xs = tuple(self.operand(st, x) for x in r["xs"])
            ak = r["ak"]
            if ak == "adt":
                if r["adt"] in IDENT and r.get("field") is None and xs:
                    return xs[0]
                if r.get("field") is not None:
                    if r["adt"] in IDENT:
                        return xs[0]
                    return ("agg", "union", r["adt"], r["field"], None, xs)
                return ("agg", "adt", r["adt"], r["v"], r["vname"], xs)
            if ak == "closure":
                return ("agg", "closure", r["key"], None, None, xs)
            if ak == "rawptr":
                return ("fat", xs[0], xs[1])
            return ("agg", ak, None, None, None, xs)
        if k == "repeat":
            return ("repeat", self.operand(st, r["x"]), str(r["n"]))
        if k == "other":
            t = r.get("text", "")
            if "UbChecks" in t or "RuntimeChecks" in t:
                return FALSE
            return ("k", t, "")
        return ("k", k, "")

    def transmute(self, x, tn):
        return x

    def discr(self, st, v, variants):
        if v[0] == "with":
            w = v
            while w[0] == "with":
                if w[2] == (("discr",),):
                    return w[3]
                w = w[1]
            v = w if w[0] == "agg" else v
        if v[0] == "agg" and v[3] is not None:
            if variants:
                for i, val, _ in variants:
                    if i == v[3]:
                        return ("c", int(val))
            return ("c", v[3])
        if v[0] == "kenum":
            return ("c", v[2])
        t = ("discr", v)
        if variants:
            st.dv[t] = tuple(int(x[1]) for x in variants)
        return t

    # ---------------------------------------------------------- walking
    def walk(self, st, block, visits):
        """All outcomes of running from `block`: list of Outcome (return / unwind / diverge)."""
        out = []
        work = [(st, block, visits)]
        e = self.e
        while work:
            st, b, vis = work.pop()
            while True:
                e.steps += 1
                if e.steps > e.limit * 20:
                    raise TooMany()
                n = vis.get(b, 0)
                if n >= e.loops:
                    e.cut += 1
                    break
                vis = dict(vis)
                vis[b] = n + 1
                blk = self.body["blocks"][b]
                for s in blk["s"]:
                    self.stmt(st, s)
                t = blk["t"]
                k = t["k"]
                if k == "goto":
                    b = t["to"]
                    continue
                if k == "return":
                    out.append(Outcome("return", st, st.read(self.root(0), ())))
                    break
                if k == "switch":
                    nxt = self.switch(st, t)
                    if not nxt:
                        break
                    for s2, b2 in nxt[1:]:
                        work.append((s2, b2, vis))
                    if len(work) + len(out) > e.limit:
                        raise TooMany()
                    st, b = nxt[0]
                    continue
                if k == "assert":
                    x = self.operand(st, t["x"])
                    want = int(t["exp"])
                    d = st.decide(x)
                    if d is not None and d != want:
                        break
                    if d is None:
                        if e.unwind:
                            s2 = st.copy()
                            s2.assume(x, 1 - want)
                            s2.event(("panic", "assert", t["msg"], self.fn["path"]))
                            self.unwind_to(s2, t.get("uw"), vis, work, out)
                        st.assume(x, want)
                    b = t["to"]
                    continue
                if k == "call":
                    res = self.call(st, t)
                    rets = []
                    for o in res:
                        if o.kind == "return":
                            if t.get("to") is None:
                                out.append(Outcome("diverge", o.st, None, "returned into a call without target"))
                                continue
                            self.assign(o.st, t["dst"], o.val)
                            rets.append(o.st)
                        elif o.kind == "unwind":
                            if e.unwind:
                                self.unwind_to(o.st, t.get("uw"), vis, work, out)
                        else:
                            out.append(o)
                    if len(work) + len(out) + len(rets) > e.limit:
                        raise TooMany()
                    if not rets:
                        break
                    for s2 in rets[1:]:
                        work.append((s2, t["to"], vis))
                    st, b = rets[0], t["to"]
                    continue
                if k == "drop":
                    res = self.drop(st, t)
                    rets = []
                    for o in res:
                        if o.kind == "return":
                            rets.append(o.st)
                        elif o.kind == "unwind" and e.unwind:
                            self.unwind_to(o.st, t.get("uw"), vis, work, out)
                    if not rets:
                        break
                    for s2 in rets[1:]:
                        work.append((s2, t["to"], vis))
                    st, b = rets[0], t["to"]
                    continue
                if k == "resume":
                    out.append(Outcome("unwind", st))
                    break
                if k == "abort":
                    out.append(Outcome("abort", st))
                    break
                break  # unreachable and others end the path
        return out

    def unwind_to(self, st, uw, vis, work, out):
        if isinstance(uw, int):
            work.append((st, uw, vis))
        elif uw == "continue":
            out.append(Outcome("unwind", st))
        elif uw == "terminate":
            out.append(Outcome("abort", st))

    def assign(self, st, place, val):
        r, p = self.resolve(st, place)
        st.write(r, p, val)
        if r[0] != "L":
            st.event(("write", r, p, val, self.fn["path"]))

    def stmt(self, st, s):
        k = s["k"]
        if k == "=":
            self.assign(st, s["p"], self.rvalue(st, s["r"], s["t"]))
        elif k == "setdiscr":
            r, p = self.resolve(st, s["p"])
            st.write(r, p + (("discr",),), ("c", s["v"]))
        elif k == "cpynonov":
            a, b, n = (self.operand(st, s[x]) for x in ("src", "dst", "n"))
            self.copy(st, a, b, n)

    def copy(self, st, src, dst, n):
        st.event(("copy", src, dst, n, self.fn["path"]))
        r, p = self.target(dst)
        if n == ("c", 1):
            r0, p0 = self.target(src)
            st.write(r, p, st.read(r0, p0))
        else:
            st.write(r, p, ("copied", st.fresh()))

    def switch(self, st, t):
        x = self.operand(st, t["x"])
        d = st.decide(x)
        if d is not None:
            for v, b in t["vals"]:
                if v == d:
                    return [(st, b)]
            return [(st, t["else"])]
        nxt = []
        for v, b in t["vals"]:
            if self.dead_block(b):
                continue
            s2 = st.copy()
            if s2.assume(x, v):
                nxt.append((s2, b))
        if not self.dead_block(t["else"]):
            s2 = st.copy()
            vals = [v for v, _ in t["vals"]]
            ok = s2.exclude(x, vals)
            # a boolean's other value
            if ok and vals == [0] and self.is_bool(t["x"]):
                ok = s2.lits_bool(x) if hasattr(s2, "lits_bool") else self.force(s2, x)
            if ok:
                nxt.append((s2, t["else"]))
        return nxt

    def force(self, st, x):
        while True:
            val = 1
            neg = 0
            while x[0] == "not":
                x, neg = x[1], 1 - neg
            st.lits[x] = val ^ neg if not isinstance(st.lits.get(x), int) else st.lits[x]
            return st.lits[x] == (val ^ neg)

    def is_bool(self, o):
        p = o.get("copy") or o.get("move")
        if p is None:
            return False
        cur = None
        for _, c in M.ty_at(self.T, self.body, p):
            cur = c
        return cur is not None and self.T[cur]["s"] == "bool"

    def dead_block(self, b):
        blk = self.body["blocks"][b]
        return blk["t"]["k"] == "unreachable" and not blk["s"]

    # ---------------------------------------------------------- calls
    def call(self, st, t):
        f = t["f"]
        fv = self.operand(st, f)
        args = [self.operand(st, a) for a in t["args"]]
        return self.apply(st, fv, args, t)

    def apply(self, st, fv, args, t):
        e = self.e
        if fv[0] != "fn":
            if fv[0] == "agg" and fv[1] == "closure":
                return self.call_closure(st, fv, fv, args, t)
            c = Call(self, t, None, fv, args)
            return self.opaque(st, c)
        info = fv[3]
        c = Call(self, t, info, fv, args)
        if e.hook:
            r = e.hook(self, st, c)
            if r is not None:
                return r
        r = builtin(self, st, c)
        if r is not None:
            return r
        fn = e.bykey.get(info.rkey) or e.bykey.get(info.key)
        if fn is not None and len(self.stack) < e.depth and sum(1 for s in self.stack if s == fn["key"]) == 0 \
                and fn["key"] != self.fn["key"] and (e.inline is None or e.inline(fn, c)):
            if len(args) == fn["body"]["argc"]:
                return e.call_body(st, fn, args, self.stack + (self.fn["key"],))
        return self.opaque(st, c)

    def call_closure(self, st, clo, env, args, t):
        """clo: the closure aggregate, env: what its body takes as first argument, args: already spread"""
        fn = self.e.bykey.get(clo[2])
        if fn is None:
            fn = next((f for f in self.e.bykey.values() if f.get("path") == clo[2]), None)
        if fn is None or len(self.stack) >= self.e.depth + 4:
            return self.opaque(st, Call(self, t, None, clo, args))
        return self.e.call_body(st, fn, [env] + list(args), self.stack + (self.fn["key"],))

    def opaque(self, st, c):
        e = self.e
        outs = []
        if c.path in e.pure:
            res = ("p", c.path) + tuple(c.args)
        else:
            n = st.fresh()
            res = ("r", n, c.path)
        mut = []
        if not c.path in e.pure:
            for i, a in enumerate(c.args):
                self.clobber(st, a, c, i, n)
        st.event(("call", c.path, tuple(c.args), res, c))
        if e.unwind and c.t.get("uw") != "unreachable" and can_panic(c):
            s2 = st.copy()
            s2.event(("panic", c.path, res, self.fn["path"]))
            outs.append(Outcome("unwind", s2))
        if c.t.get("to") is not None or c.diverges is False:
            outs.append(Outcome("return", st, res))
        elif not e.unwind:
            outs.append(Outcome("diverge", st, None, c.path))
        return outs

    def clobber(self, st, a, c, i, n):
        """Memory an opaque callee may change through an argument."""
        tn = c.argty(i)
        if tn is not None and tn.get("k") == "ref" and not tn.get("mut"):
            return
        self.clobber_val(st, a, i, n, tn)

    def clobber_val(self, st, a, i, n, tn=None):
        if a[0] == "ref":
            # only what is passed as &mut or *mut can change
            if tn is None or tn.get("k") not in ("ref", "ptr") or tn.get("mut"):
                st.write(a[1], a[2], ("out", n, i))
        elif a[0] == "agg":
            for x in a[5]:
                if x[0] in ("ref", "agg"):
                    self.clobber_val(st, x, i, n)
        elif tn is not None and tn.get("k") in ("ref", "ptr") and tn.get("mut"):
            st.write(root_of(a), (), ("out", n, i))

    def drop(self, st, t):
        root, proj = self.resolve(st, t["p"])
        v = st.read(root, proj)
        e = self.e
        if e.drop_hook:
            r = e.drop_hook(self, st, root, proj, v, self.T[t["t"]], t)
            if r is not None:
                return r
        st.event(("drop", root, proj, v, self.T[t["t"]]["s"], self.fn["path"]))
        outs = []
        if e.unwind and t.get("uw") != "unreachable":
            s2 = st.copy()
            s2.event(("panic", "drop", v, self.fn["path"]))
            outs.append(Outcome("unwind", s2))
        outs.append(Outcome("return", st))
        return outs


class FnInfo:
    """A callee; compares equal to any other of the same name."""
    __slots__ = ("d", "T", "key", "rkey", "path", "rpath", "name", "trait")

    def __init__(self, d, T):
        self.d, self.T = d, T
        self.key, self.rkey = d.get("key"), d.get("rkey")
        self.path, self.rpath = d.get("p") or d.get("rp"), d.get("rp")
        self.name, self.trait = d.get("name"), d.get("trait")

    def __eq__(self, o):
        return isinstance(o, FnInfo) and (self.key, self.rkey) == (o.key, o.rkey)

    def __hash__(self):
        return hash((self.key, self.rkey))

    def __repr__(self):
        return self.rpath or self.path

    def tyargs(self):
        out = []
        for a in self.d.get("a", []) or []:
            out.append(self.T[a]["s"] if isinstance(a, int) else str(a.get("const")))
        return out


class Call:
    __slots__ = ("fr", "t", "info", "fv", "args", "path", "rpath", "diverges")

    def __init__(self, fr, t, info, fv, args):
        self.fr, self.t, self.info, self.fv, self.args = fr, t, info, fv, args
        self.path = (info.path or info.rpath) if info else "<indirect>"
        self.rpath = (info.rpath or info.path) if info else "<indirect>"
        self.diverges = None

    def argty(self, i):
        if i >= len(self.t.get("args", ())):
            return None
        o = self.t["args"][i]
        p = o.get("copy") or o.get("move")
        if p is None:
            c = o.get("const")
            return self.fr.T[c["ty"]] if c else None
        cur = None
        for _, c in M.ty_at(self.fr.T, self.fr.body, p):
            cur = c
        return self.fr.T[cur] if cur is not None else None

    def retty(self):
        return self.fr.T[self.t["dt"]]["s"] if "dt" in self.t else "?"

    def __repr__(self):
        return "Call(%s)" % self.rpath

    def __eq__(self, o):
        return isinstance(o, Call) and self.path == o.path

    def __hash__(self):
        return hash(self.path)


NO_PANIC = ("core::sync::atomic::", "core::mem::", "core::ptr::", "core::hint::", "core::intrinsics::", "core::slice::raw::")


def can_panic(c):
    return not (c.rpath.startswith(NO_PANIC) or c.path.startswith(NO_PANIC))


def ret(st, v):
    return [Outcome("return", st, v)]


def builtin(fr, st, c):
    """Library functions whose effect is on the places we track."""
    p = c.rpath
    q = c.path
    a = c.args
    if q in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call") and len(a) == 2:
        f = a[0]
        env = f
        inner = f
        while inner[0] == "ref":
            inner = st.read(inner[1], inner[2])
        spread = list(a[1][5]) if a[1][0] == "agg" and a[1][1] == "tuple" else None
        if spread is None:
            return None
        if inner[0] == "fn":
            return fr.apply(st, inner, spread, c.t)
        if inner[0] == "agg" and inner[1] == "closure":
            body = fr.e.bykey.get(inner[2])
            if body is not None:
                t1 = body["T"][body["body"]["locals"][1]]
                if t1.get("k") == "ref":
                    if env[0] != "ref":
                        fr.e.fid += 1
                        r = ("L", fr.e.fid, 0)
                        st.write(r, (), inner)
                        env = ("ref", r, ())
                    else:
                        while st.read(env[1], env[2])[0] == "ref":
                            env = st.read(env[1], env[2])
                else:
                    env = inner
                return fr.call_closure(st, inner, env, spread, c.t)
        return None
    if not p.startswith("core::") and not q.startswith("core::") and not p.startswith("<"):
        return None
    n = (c.info.name or p.rsplit("::", 1)[-1]) if c.info else ""
    if c.info and c.info.name and c.info.name[:1].isupper():
        # a tuple constructor used as a function
        adt = p.rsplit("::", 1)[0]
        idx = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Ready": 0, "Pending": 1, "Continue": 0, "Break": 1}.get(n)
        if idx is not None:
            return ret(st, agg(adt, idx, n, a))
        return None
    if p in ("core::mem::forget", "core::mem::manually_drop::ManuallyDrop::<T>::new", "core::mem::manually_drop::ManuallyDrop::<T>::into_inner",
             "core::mem::maybe_uninit::MaybeUninit::<T>::new", "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init",
             "core::hint::black_box", "core::convert::identity", "core::pin::Pin::<Ptr>::new_unchecked",
             "core::cell::UnsafeCell::<T>::new", "core::ptr::non_null::NonNull::<T>::new_unchecked", "core::cell::UnsafeCell::<T>::into_inner",
             "core::pin::Pin::<Ptr>::get_unchecked_mut", "core::pin::Pin::<Ptr>::get_mut", "core::pin::Pin::<Ptr>::into_inner_unchecked",
             "core::cell::UnsafeCell::<T>::get", "core::mem::maybe_uninit::MaybeUninit::<T>::as_ptr", "core::mem::maybe_uninit::MaybeUninit::<T>::as_mut_ptr",
             "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_ref", "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_mut",
             "core::mem::transmute", "core::intrinsics::transmute", "core::ptr::from_ref", "core::ptr::from_mut",
             "<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref>::deref",
             "<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::DerefMut>::deref_mut"):
        if n == "forget":
            st.event(("forget", a[0], c.argty(0) and c.argty(0)["s"], fr.fn["path"]))
            return ret(st, UNIT)
        return ret(st, a[0])
    if p in ("core::mem::transmute_copy",):
        r, pr = fr.target(a[0])
        return ret(st, st.read(r, pr))
    if p.startswith("core::ptr::") or p.startswith("core::intrinsics::"):
        if n in ("cast", "cast_mut", "cast_const", "as_ptr", "from_ref", "from_mut", "addr_of", "cast_array", "as_non_null_ptr", "as_uninit_ref"):
            return ret(st, a[0])
        if n in ("read", "read_unaligned", "read_volatile") and len(a) == 1:
            r, pr = fr.target(a[0])
            v = st.read(r, pr)
            st.event(("ptr_read", a[0], v, c.retty(), fr.fn["path"]))
            return ret(st, v)
        if n in ("write", "write_unaligned", "write_volatile") and len(a) == 2:
            r, pr = fr.target(a[0])
            st.write(r, pr, a[1])
            st.event(("write", r, pr, a[1], fr.fn["path"]))
            return ret(st, UNIT)
        if n in ("copy", "copy_nonoverlapping") and len(a) == 3:
            fr.copy(st, a[0], a[1], a[2])
            return ret(st, UNIT)
        if n in ("copy_to", "copy_to_nonoverlapping") and len(a) == 3:
            fr.copy(st, a[0], a[1], a[2])
            return ret(st, UNIT)
        if n in ("copy_from", "copy_from_nonoverlapping") and len(a) == 3:
            fr.copy(st, a[1], a[0], a[2])
            return ret(st, UNIT)
        if n == "write_bytes" and len(a) == 3:
            r, pr = fr.target(a[0])
            st.event(("write_bytes", a[0], a[1], a[2], fr.fn["path"]))
            st.write(r, pr, ("bytes", a[1]))
            return ret(st, UNIT)
        if n in ("replace",) and len(a) == 2:
            r, pr = fr.target(a[0])
            v = st.read(r, pr)
            st.write(r, pr, a[1])
            st.event(("write", r, pr, a[1], fr.fn["path"]))
            return ret(st, v)
        if n in ("drop_in_place", "drop_glue"):
            r, pr = fr.target(a[0])
            v = st.read(r, pr)
            ty = c.argty(0)
            if fr.e.drop_hook:
                res = fr.e.drop_hook(fr, st, r, pr, v, c.fr.T[ty["t"]] if ty and "t" in ty else {"s": "?"}, c.t)
                if res is not None:
                    return res
            st.event(("drop", r, pr, v, c.fr.T[ty["t"]]["s"] if ty and "t" in ty else "?", fr.fn["path"]))
            outs = [Outcome("return", st, UNIT)]
            if fr.e.unwind:
                s2 = st.copy()
                s2.event(("panic", "drop", v, fr.fn["path"]))
                outs.append(Outcome("unwind", s2))
            return outs
        if n in ("add", "offset", "sub", "wrapping_add", "wrapping_sub", "byte_add", "byte_sub", "wrapping_offset", "byte_offset") and len(a) == 2:
            op = "Offset" if "add" in n or "offset" in n else "OffsetBack"
            if "byte" in n:
                op = "Byte" + op
            return ret(st, binop(op, a[0], a[1]))
        if n in ("is_null",):
            if a[0][0] == "ref":
                return ret(st, FALSE)
            return ret(st, ("isnull", a[0]))
        if n in ("null", "null_mut"):
            return ret(st, ("c", 0))
        if n in ("eq", "addr_eq") and len(a) == 2:
            return ret(st, binop("Eq", a[0], a[1]))
        if n in ("as_ref", "as_mut") and "NonNull" in p:
            return ret(st, a[0] if a[0][0] != "ref" else st.read(*fr.target(a[0])))
        if n == "new" and "NonNull" in p:
            s2 = st.copy()
            outs = []
            t = ("isnull", a[0])
            if a[0][0] != "ref" and s2.assume(t, 1):
                outs.append(Outcome("return", s2, NONE))
            if st.assume(t, 0):
                outs.append(Outcome("return", st, some(a[0])))
            return outs
        if n == "precondition_check":
            return ret(st, UNIT)
    if p == "core::mem::drop":
        ty = c.argty(0)
        if fr.e.drop_hook:
            fr.e.fid += 1
            r = ("L", fr.e.fid, 0)
            st.write(r, (), a[0])
            res = fr.e.drop_hook(fr, st, r, (), a[0], ty or {"s": "?"}, c.t)
            if res is not None:
                return res
        st.event(("drop", None, (), a[0], ty["s"] if ty else "?", fr.fn["path"]))
        return ret(st, UNIT)
    if p in ("core::mem::replace", "core::mem::take", "core::mem::swap"):
        r, pr = fr.target(a[0])
        v = st.read(r, pr)
        if n == "replace":
            st.write(r, pr, a[1])
            if r[0] != "L":
                st.event(("write", r, pr, a[1], fr.fn["path"]))
            return ret(st, v)
        if n == "take":
            d = ("default", c.retty())
            if c.retty().startswith("core::option::Option<"):
                d = NONE
            elif c.retty() in ("usize", "u8", "u32", "u64", "bool"):
                d = ("c", 0)
            st.write(r, pr, d)
            if r[0] != "L":
                st.event(("write", r, pr, d, fr.fn["path"]))
            return ret(st, v)
        r2, p2 = fr.target(a[1])
        w = st.read(r2, p2)
        st.write(r, pr, w)
        st.write(r2, p2, v)
        for x in ((r, pr, w), (r2, p2, v)):
            if x[0][0] != "L":
                st.event(("write",) + x + (fr.fn["path"],))
        return ret(st, UNIT)
    if p in ("core::mem::size_of", "core::mem::align_of", "core::mem::needs_drop", "core::mem::size_of_val", "core::mem::align_of_val",
             "core::intrinsics::size_of", "core::intrinsics::needs_drop", "core::intrinsics::align_of", "core::intrinsics::min_align_of"):
        return ret(st, ("k", n + "<" + ",".join(c.info.tyargs()) + ">", "usize"))
    if p in ("core::mem::maybe_uninit::MaybeUninit::<T>::uninit",):
        return ret(st, ("undef",))
    if p in ("core::mem::zeroed", "core::mem::maybe_uninit::MaybeUninit::<T>::zeroed"):
        return ret(st, ("zeroed", c.retty()))
    if p == "core::mem::maybe_uninit::MaybeUninit::<T>::write":
        r, pr = fr.target(a[0])
        st.write(r, pr, a[1])
        st.event(("write", r, pr, a[1], fr.fn["path"]))
        return ret(st, a[0])
    if p in ("core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_read",):
        r, pr = fr.target(a[0])
        v = st.read(r, pr)
        st.event(("ptr_read", a[0], v, c.retty(), fr.fn["path"]))
        return ret(st, v)
    if p in ("core::hint::unreachable_unchecked", "core::intrinsics::unreachable"):
        return []
    if p in ("core::hint::assert_unchecked", "core::intrinsics::assume"):
        return ret(st, UNIT) if st.assume(a[0], 1) else []
    return None


def show(t, d=0):
    """A readable form of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if d > 8:
        return "…"
    s = lambda x: show(x, d + 1)
    if k == "c":
        return str(t[1])
    if k == "arg":
        return "arg%d" % t[1]
    if k == "agg":
        if t[1] == "closure":
            return "closure"
        return "%s(%s)" % ((t[4] or t[1]), ", ".join(s(x) for x in t[5]))
    if k == "ld":
        return "*%s%s" % (s(t[1]), "".join("." + str(p[1] if p[0] == "f" else s(p[1]) if isinstance(p[1], tuple) else p[1]) for p in t[2]))
    if k == "pj":
        return "%s.%s" % (s(t[1]), t[2][1] if len(t[2]) > 1 else t[2])
    if k == "ref":
        return "&%s%s" % ("_" + str(t[1][2]) if t[1][0] == "L" else "*" + s(t[1][1]) if t[1][0] == "M" else str(t[1]), "".join("." + str(p[1]) for p in t[2]))
    if k == "r":
        return "#%d:%s" % (t[1], t[2].rsplit("::", 1)[-1])
    if k == "op":
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if k == "fn":
        return "fn " + str(t[2])
    if k == "k":
        return "const " + str(t[1])[:60]
    if k == "kenum":
        return str(t[3])
    if k == "p":
        return "%s(%s)" % (t[1].rsplit("::", 1)[-1], ", ".join(s(x) for x in t[2:]))
    if k == "not":
        return "!" + s(t[1])
    if k == "with":
        return "%s{%s=%s}" % (s(t[1]), ".".join(str(x[1]) if len(x) > 1 else x[0] for x in t[2]), s(t[3]))
    return str(k)[:60] + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"
