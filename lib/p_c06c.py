"""C06, comparison rule: every path on which `TypeReport::is_compatible` may accept compared every part of both reports."""
import paths as P

PURE = ("core::slice::raw::from_raw_parts", "core::str::converts::from_utf8_unchecked", "core::str::<impl str>::as_bytes",
        "core::iter::traits::iterator::Iterator::count", "core::iter::traits::iterator::Iterator::zip",
        "core::iter::traits::collect::IntoIterator::into_iter", "core::iter::traits::iterator::Iterator::by_ref",
        "core::str::<impl str>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::as_ptr")
S, O = ("arg", 1), ("arg", 2)


def hole(t):
    if t in (S, O):
        return ("side",)
    if isinstance(t, tuple):
        return tuple(hole(x) if isinstance(x, tuple) else x for x in t)
    return t


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


def lds(t, out):
    """field paths of a side that a holed term is made of"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "ld" and t[1] == ("side",):
            out.add(tuple(e[1] for e in t[2] if e[0] == "f"))
            return out
        for y in t:
            if isinstance(y, tuple):
                lds(y, out)
    return out


class Cmp:
    def __init__(self, F, rep):
        self.rep = rep
        self.F = F
        tr = F.adt["stabby_abi::report::TypeReport"]["variants"][0]["fields"]
        self.fld = {f["name"]: i for i, f in enumerate(tr)}
        fr = F.adt["stabby_abi::report::FieldReport"]["variants"][0]["fields"]
        self.ffld = {f["name"]: i for i, f in enumerate(fr)}
        tt = F.adt["stabby_abi::report::TyTy"]["variants"]
        self.payload = {i for i, v in enumerate(tt) if v["fields"]}
        self.fn = F.byfn["stabby_abi::report::TypeReport::is_compatible"][0]
        self.eng = P.Engine(F, pure=PURE, hook=self.hook, inline=self.inline, depth=10)

    def inline(self, fn, c):
        return True

    def deref(self, fr, st, v, n):
        for _ in range(n):
            v = st.read(*fr.target(v))
        return v

    def hook(self, fr, st, c):
        n = c.info.name
        if c.info.rkey == self.fn["key"]:
            return P.ret(st, ("compat", c.args[0], c.args[1]))
        if c.info.trait == "core::cmp::PartialEq" and n in ("eq", "ne") and len(c.args) == 2:
            body = self.eng.bykey.get(c.info.rkey)
            if body is not None and n == "eq" and not c.rpath.startswith(("core::", "<core::")):
                return None
            depth = 1
            ty = c.argty(0)
            while ty is not None and ty.get("k") == "ref":
                inner = c.fr.T[ty["t"]]
                if inner.get("k") != "ref":
                    break
                depth += 1
                ty = inner
            e = ("equal",) + tuple(sorted((self.deref(fr, st, c.args[0], depth), self.deref(fr, st, c.args[1], depth)), key=repr))
            return P.ret(st, ("not", e) if n == "ne" else e)
        if c.path in ("core::iter::traits::iterator::Iterator::all", "core::iter::traits::iterator::Iterator::any") and len(c.args) == 2:
            it = c.args[0]
            while it[0] == "ref":
                it = st.read(it[1], it[2])
            if it[0] == "p" and it[1].endswith("::zip"):
                item = ("agg", "tuple", None, None, None, (("item", it[2]), ("item", it[3])))
            else:
                return None
            clo = c.args[1]
            s2 = st.copy()
            outs = fr.apply(s2, ("fn", None, "core::ops::function::FnMut::call_mut", Closure()), [clo, ("agg", "tuple", None, None, None, (item,))], c.t)
            want = 1 if n == "all" else 0
            acc = []
            for o in outs:
                if o.kind != "return":
                    continue
                if o.st.assume(o.val, want):
                    acc.append(self.atoms(o.st, st))
            # what holds of every pair of elements when the result is the accepting one
            common = frozenset.intersection(*acc) if acc else frozenset()
            t = ("forall", it[2], it[3], common)
            return P.ret(st, t if n == "all" else ("not", t))
        return None

    def expand(self, t, v):
        """atoms a decided literal amounts to"""
        if t[0] == "not":
            return self.expand(t[1], 1 - v)
        if t[0] == "op" and t[1] == "BitAnd" and v == 1:
            return self.expand(t[2], 1) + self.expand(t[3], 1)
        if t[0] == "op" and t[1] == "BitOr" and v == 0:
            return self.expand(t[2], 0) + self.expand(t[3], 0)
        return [(t, v)]

    def atoms(self, st, base=None):
        out = set()
        for t, v in st.lits.items():
            if isinstance(v, int):
                for a in self.expand(t, v):
                    out.add(a)
        return frozenset(out)

    def check(self):
        rep = self.rep
        try:
            outs = self.eng.run(self.fn, [S, O])
        except P.TooMany:
            rep.coverage["comparison"] = "undecided: too many paths"
            return
        where = "TypeReport::is_compatible (%s)" % self.fn["loc"]
        for o in outs:
            if o.kind != "return":
                continue
            if o.val == P.FALSE:
                rep.count("rejecting-path")
                self.reflexive(o, where)
                continue
            st = o.st
            if not st.assume(o.val, 1):
                continue
            rep.count("accepting-path")
            atoms = self.atoms(st)
            unknown = [e for e in st.events() if e[0] == "call" and not (e[1] in PURE) and mentions(e[2], S) and mentions(e[2], O)]
            missing = self.missing(atoms, st)
            if not missing:
                rep.sample("accepting path of is_compatible compared name, module, version, kind and fields (%d literals)" % len(atoms))
            elif unknown:
                rep.coverage.setdefault("comparison", []).append("undecided: calls %s" % unknown[0][1])
            else:
                for m in missing:
                    rep.violation("compare|" + m, "%s can accept two reports that differ in their %s" % (where, m))

    def reflexive(self, o, where):
        """a path that rejects has to have seen a difference"""
        pos = all(v == 1 for t, v in self.atoms(o.st) if t[0] in ("equal", "compat", "forall"))
        neg = [t for t, v in self.atoms(o.st) if v == 0 or t[0] not in ("equal", "compat", "forall")]
        unknown = [e for e in o.st.events() if e[0] == "call" and e[1] not in PURE]
        if pos and not neg and not unknown and not any(isinstance(v, frozenset) for v in o.st.lits.values()):
            self.rep.violation("compare|reflexive", "%s rejects a report although everything it compared is equal" % where)

    def equal(self, atoms):
        """holed terms known equal on both sides"""
        out = []
        for t, v in atoms:
            if v != 1:
                continue
            if t[0] == "equal" or (t[0] == "op" and t[1] == "Eq"):
                x, y = t[-2], t[-1]
                if x != y and hole(x) == hole(y) and (mentions(x, S) != mentions(x, O)):
                    out.append((t[0], hole(x)))
        return out

    def whole(self, eqs, f):
        """is the part at field path f compared as a whole?"""
        for kind, h in eqs:
            ps = {p[len(f):] for p in lds(h, set()) if p[:len(f)] == f}
            if not ps:
                continue
            if () in ps or len(ps) > 1 or kind == "equal":
                if only_len(h):
                    continue
                return True
        return False

    def missing(self, atoms, st):
        eqs = self.equal(atoms)
        if any(h == ("side",) for _, h in eqs):
            return []  # the very same report
        out = []
        for n in ("name", "module"):
            if not self.whole(eqs, (self.fld[n],)):
                out.append(n)
        ver = (self.fld["version"],)
        if not any(ver in lds(h, set()) and h == ("ld", ("side",), (("f", ver[0]),)) for _, h in eqs):
            out.append("version")
        ty = self.fld["tyty"]
        tyterm = ("ld", ("side",), (("f", ty),))
        if not any(h == tyterm for _, h in eqs):
            d = [v for t, v in st.lits.items() if hole(t) == ("discr", tyterm)]
            known = {t[1][1]: v for t, v in st.lits.items() if t[0] == "discr" and hole(t) == ("discr", tyterm)}
            same = any(h == ("discr", tyterm) for _, h in eqs) or \
                (isinstance(known.get(S), int) and known.get(S) == known.get(O))
            pay = self.whole([e for e in eqs if e[1] != ("discr", tyterm)], (ty,))
            if not same:
                out.append("kind")
            elif not pay:
                s, o_ = known.get(S), known.get(O)
                ruled = any(isinstance(x, frozenset) and self.payload <= x or isinstance(x, int) and x not in self.payload for x in (s, o_))
                if not ruled:
                    out.append("enum representation")
        if not self.fields_ok(atoms, eqs, st):
            out.append("fields")
        return out

    def fields_ok(self, atoms, eqs, st):
        f = self.fld["fields"]
        count = any(h[0] == "p" and h[1].endswith("::count") and any(p[:1] == (f,) for p in lds(h, set())) for _, h in eqs)
        for t, v in atoms:
            if t[0] == "forall" and v == 1:
                if hole(t[1]) != hole(t[2]) or not any(p[:1] == (f,) for p in lds(hole(t[1]), set())):
                    continue
                a, b = ("item", t[1]), ("item", t[2])
                if self.element(t[3], a, b) and count:
                    return True
        # a loop over both chains
        chain = {}
        for t, v in st.lits.items():
            if t[0] == "discr" and isinstance(v, int):
                h = hole(t)
                ps = lds_any(h)
                if ps is not None and ps[:1] == (f,) or chained(h, f, self.ffld["next_field"]):
                    side = S if mentions(t, S) else O
                    chain.setdefault(h, {})[side] = (v, t)
        if not chain:
            return False
        ended = False
        for h, m in chain.items():
            if set(m) != {S, O} or m[S][0] != m[O][0]:
                return False
            if m[S][0] == 1:
                a, b = payload(m[S][1][1]), payload(m[O][1][1])
                if not self.element(atoms, a, b):
                    return False
            else:
                ended = True
        return ended

    def element(self, atoms, a, b):
        n, ty = self.ffld["name"], self.ffld["ty"]

        def sub(t, base, to):
            if t == base:
                return to
            if isinstance(t, tuple):
                return tuple(sub(x, base, to) if isinstance(x, tuple) else x for x in t)
            return t
        name = tyok = False
        for t, v in atoms:
            if v != 1 or t[0] not in ("equal", "compat", "op"):
                continue
            x, y = t[-2], t[-1]
            xs, ys = sub(x, a, ("side",)), sub(y, b, ("side",))
            if not (mentions(xs, ("side",)) and xs == ys):
                xs, ys = sub(y, a, ("side",)), sub(x, b, ("side",))
                if not (mentions(xs, ("side",)) and xs == ys):
                    continue
            ps = lds(xs, set())
            if t[0] == "equal" and any(p[:1] == (n,) for p in ps) and not only_len(xs):
                name = True
            if t[0] == "compat" and any(p[:1] == (ty,) for p in ps):
                tyok = True
        return name and tyok


def payload(t):
    return P.project(t, (("v", 1), ("f", 0)))if t[0] != "ld" else ("ld", t[1], t[2] + (("f", 0),))


def lds_any(h):
    s = lds(h, set())
    return sorted(s)[0] if s else None


def chained(h, f, nxt):
    return bool(lds(h, set()))


def only_len(h):
    return h[0] == "p" and h[1].endswith("::len") or (h[0] == "ld" and False)


class Closure(P.FnInfo):
    __slots__ = ()

    def __init__(self):
        super().__init__({"p": "core::ops::function::FnMut::call_mut", "rp": "core::ops::function::FnMut::call_mut", "name": "call_mut",
                          "trait": "core::ops::function::FnMut"}, [])


def check(F, rep):
    Cmp(F, rep).check()
    rep.floor("accepting-path", 1)
    rep.floor("rejecting-path", 1)
