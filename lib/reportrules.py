"""Rules over the type reports the front end evaluates for declared types."""
import re


def fields(node):
    """(name, type report) pairs of an `Option<&FieldReport>` chain, in report order."""
    out = []
    n = node
    while n.get("variant") == "Some":
        x = dict(n["fields"][0][1]["fields"])
        out.append((x["name"], x["ty"]["report"]))
        n = x["next_field"]["fields"][0][1]
    return out


class Rep:
    def __init__(self, r):
        f = dict(r["fields"])
        n = f["fields"]
        while "fields" in n and n.get("variant") is None:
            n = n["fields"][0][1]
        self.name, self.module, self.version = f["name"], f["module"], int(f["version"])
        t = f["tyty"]
        self.kind = t["variant"] + (":" + str(t["fields"][0][1]) if t["fields"] else "")
        self.fields = fields(n)


def split(s):
    """head, top-level generic arguments of a printed type"""
    i = s.find("<")
    if i < 0 or not s.endswith(">") or not re.match(r"[A-Za-z_]", s) or s.startswith(("extern", "unsafe", "for<", "fn(")):
        return s, []
    args, depth, cur = [], 0, ""
    body = s[i + 1:-1]
    j = 0
    while j < len(body):
        c = body[j]
        if body.startswith("->", j):
            cur += "->"
            j += 2
            continue
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += c
        j += 1
    if cur.strip():
        args.append(cur.strip())
    return s[:i], args


# types defined to stand for exactly what one of their parameters is, in memory and in their report
TRANSPARENT = {
    "core::mem::manually_drop::ManuallyDrop": 0,
    "stabby_abi::StableIf": 0,
    "stabby_abi::StableLike": 1,
    "stabby_abi::stable_impls::HasExactlyOneNiche": 0,
}
# types that exist to compute a layout and never describe a value a program passes
COMPUTED = re.compile(r"^stabby_abi::(typenum2::unsigned::OneMoreByte|FieldPair|Union|istable::\w*Union|(istable::)?AlignedAfter|Struct|"
                      r"AlignedStruct|enums::(BitIsErr|ValueIsErr)|\w*NicheExporter|enums::\w*NicheExporter)$")


def canon(s):
    while True:
        h, a = split(s)
        if h in TRANSPARENT and len(a) > TRANSPARENT[h]:
            s = a[TRANSPARENT[h]]
        elif h == "core::result::Result" and len(a) == 2 and a[1] == "!":
            s = a[0]
        elif h == "core::marker::PhantomData":
            return h
        else:
            return h + ("<" + ", ".join(canon(x) for x in a) + ">" if a else "")


def clash_key(types):
    """Names a set of canonical types sharing one report by what differs between them."""
    heads = sorted({split(t)[0] for t in types})
    if len(heads) > 1:
        return "|".join(heads[:3]) + ("|…" if len(heads) > 3 else "")
    if "StabbyVtable" in heads[0]:
        return "StabbyVtable*|signatures"
    args = [split(t)[1] for t in types]
    n = max(len(a) for a in args)
    diff = [str(i) for i in range(n) if len({a[i] if i < len(a) else None for a in args}) > 1]
    return heads[0] + "|arguments " + ",".join(diff)


def distinct(rep, dump):
    by = {}
    for e in dump["entries"]:
        if e.get("report"):
            by.setdefault(e["report"]["report"], set()).add(e["s"])
    n = 0
    for r, ts in sorted(by.items()):
        ts = {t for t in ts if not COMPUTED.match(split(t)[0])}
        cs = {canon(t) for t in ts}
        cs = {c for c in cs if not COMPUTED.match(split(c)[0])}
        if not cs:
            continue
        n += 1
        rep.count("distinct-report")
        if len(cs) > 1:
            some = sorted(cs, key=lambda x: (len(x), x))[:4]
            rep.violation("same-report|" + clash_key(cs), "%d different types share one report, so one is accepted where the other is expected: %s"
                          % (len(cs), "; ".join(some)))
    ids = {}
    for e in dump["entries"]:
        if e.get("id") and e.get("report"):
            rep.count("identifier")
            ids.setdefault(e["id"], {}).setdefault(e["report"]["report"], e["s"])
    for i, rs in sorted(ids.items()):
        if len(rs) > 1:
            rep.violation("same-id|" + "|".join(sorted(rs.values())[:2]), "types with different reports share the identifier %s: %s" % (i, "; ".join(sorted(rs.values())[:4])))
    return n


REPR = {"None": None}


def declared(rep, dump, exceptions, stable_enums):
    """Every report generated by the attribute macro says what was declared."""
    reps = [Rep(r) if "fields" in r and len(r["fields"]) == 5 else None for r in dump["reports"]]
    attr = {i["key"] for i in dump["impls"] if "Attr" in str(i.get("expn")) and "stabby" in str(i.get("expn"))}
    for e in dump["entries"]:
        d = e.get("decl")
        if not d or not e.get("report") or not (e["impl"] in attr or e["impl"] == "user"):
            continue
        if split(e["s"])[0] != d["path"]:
            continue
        r = reps[e["report"]["report"]]
        if r is None:
            rep.violation("shape|" + d["path"], "the report of %s is not a TypeReport of the expected shape" % e["s"])
            continue
        mod, _, ident = d["path"].rpartition("::")
        ver = 0
        if d["path"] in exceptions:
            mod2, ver = exceptions[d["path"]]
            mod = mod2 or mod
        where = "the report of %s" % e["s"]
        for what, got, want in (("name", r.name, ident), ("module", r.module, mod), ("version", r.version, ver)):
            rep.count("declared-" + what)
            if got != want:
                rep.violation("%s|%s" % (what, d["path"]), "%s has %s %r, declared %r" % (where, what, got, want))
        if r.kind == "Enum:stabby":
            want = stable_enums.get(e["s"])
            if want is not None:
                names = [(n, canon_of(dump, reps, t)) for n, t in r.fields]
                rep.count("declared-variants")
                if names not in (want, want[::-1]):
                    rep.violation("variants|" + d["path"], "%s lists the variants %s, declared %s" % (where, names, want))
            continue
        rep.count("declared-kind")
        if d["kind"] == "enum":
            data = any(v[1] for v in d["variants"])
            want = "Enum:" + reprname(d["repr"], data)
        else:
            want = {"struct": "Struct", "union": "Union"}[d["kind"]]
        if r.kind != want and want is not None:
            rep.violation("kind|" + d["path"], "%s says %s, declared %s" % (where, r.kind, want))
        if d["kind"] == "enum":
            got = []
            ok = True
            for n, t in r.fields:
                v = next((v for v in d["variants"] if v[0] == n), None)
                if v is None:
                    ok = False
                    break
                fs = [(f[0], f[2] and f[2]["report"]) for f in v[1]]
                rep.count("declared-payload")
                if not fs:
                    okv = reps[t] is not None and reps[t].name == "()"
                elif len(fs) == 1 and fs[0][0] == "0":
                    okv = fs[0][1] == t
                else:
                    okv = reps[t] is not None and reps[t].fields in (fs, fs[::-1])
                    okv = okv or (len(fs) == 1 and fs[0][1] == t)
                if not okv:
                    rep.violation("payload|%s|%s" % (d["path"], n), "%s does not say what %s::%s carries" % (where, d["path"], n))
                got.append(n)
            names = [v[0] for v in d["variants"]]
            rep.count("declared-variants")
            if not ok or got not in (names, names[::-1]):
                rep.violation("variants|" + d["path"], "%s lists the variants %s, declared %s" % (where, [f[0] for f in r.fields], names))
        else:
            want = [(f[0], f[2] and f[2]["report"]) for f in d["variants"][0][1]]
            rep.count("declared-fields")
            if any(t is None for _, t in want):
                continue
            if r.fields not in (want, want[::-1]):
                rep.violation("fields|" + d["path"], "%s lists the fields %s, declared %s" % (
                    where, [(n, canon_of(dump, reps, t)) for n, t in r.fields], [(n, canon_of(dump, reps, t)) for n, t in want]))
            else:
                rep.sample("%s = %s %s::%s v%d {%s}" % (e["s"], r.kind, r.module, r.name, r.version, ", ".join(n for n, _ in r.fields)))


def canon_of(dump, reps, i):
    r = reps[i]
    return r.name if r else "?"


def reprname(s, data):
    m = re.search(r"Fixed\(I(\d+), (true|false)\)|Pointer\((true|false)\)", s)
    t = None
    if m:
        t = ("i" if "true" in m.group(0) else "u") + (m.group(1) or "size")
    if s.startswith("C, ") and data and t:
        return "C, " + t
    return t or ("C" if s.startswith("C, ") else "?")


NAMES = {"NonZeroU8": "core::num::NonZeroU8"}


def parse_witness(path, crate):
    """What the witness crate declares: {type path: (module or None, version)}, {repr(stabby) enum: [(variant, payload's report name)]}."""
    exc, enums = {}, {}
    stack, attr, rs = [], None, False
    depth = 0
    for line in open(path):
        for part in re.split(r"(?<=[{};])\s+(?=pub mod|#\[|pub )|(?<=\])\s+", line.strip()):
            m = re.match(r"pub mod (\w+) \{", part)
            if m:
                stack.append((m.group(1), depth))
            m = re.match(r"#\[stabby::stabby(?:\((.*)\))?\]", part)
            if m:
                attr, rs = m.group(1) or "", False
            if part.startswith("#[repr(stabby)]"):
                rs = True
            m = re.match(r"pub (struct|union|enum) (\w+)", part)
            if m and attr is not None:
                full = "::".join([crate] + [s for s, _ in stack] + [m.group(2)])
                mod = re.search(r'module = "([^"]*)"', attr)
                ver = re.search(r"version = (\d+)", attr)
                if mod or ver:
                    exc[full] = (mod.group(1) if mod else None, int(ver.group(1)) if ver else 0)
                b = re.search(r"\{(.*)\}", line)
                if rs and "<" not in part.split("{")[0] and b:
                    vs = [v.strip() for v in re.findall(r"[A-Z]\w*(?:\([^)]*\))?", line[line.index("pub enum " + m.group(2)) + 9 + len(m.group(2)):])]
                    enums[full] = [(v.split("(")[0], NAMES.get(v[v.index("(") + 1:-1], v[v.index("(") + 1:-1]) if "(" in v else "()") for v in vs]
                attr = None
            depth += part.count("{") - part.count("}")
            while stack and depth <= stack[-1][1]:
                stack.pop()
    return exc, enums
