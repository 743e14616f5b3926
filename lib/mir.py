"""Helpers over dumped MIR bodies."""


def succs(t, unwind=False):
    k = t["k"]
    out = []
    if k == "switch":
        out = [b for _, b in t["vals"]] + [t["else"]]
    elif t.get("to") is not None:
        out = [t["to"]]
    if unwind and isinstance(t.get("uw"), int):
        out.append(t["uw"])
    return out


def preds(body, unwind=False):
    p = {i: [] for i in range(len(body["blocks"]))}
    for i, b in enumerate(body["blocks"]):
        for s in succs(b["t"], unwind):
            p[s].append(i)
    return p


def reachable(body, start=0, unwind=False, stop=()):
    seen, work = set(), [start]
    while work:
        b = work.pop()
        if b in seen or b in stop:
            continue
        seen.add(b)
        work.extend(succs(body["blocks"][b]["t"], unwind))
    return seen


def dominators(body, unwind=False):
    order, seen = [], set()

    def dfs(b):
        stack = [(b, iter(succs(body["blocks"][b]["t"], unwind)))]
        seen.add(b)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succs(body["blocks"][s]["t"], unwind))))
                    break
            else:
                order.append(n)
                stack.pop()
    dfs(0)
    order.reverse()
    pr = preds(body, unwind)
    dom = {0: {0}}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b == 0:
                continue
            ps = [dom[p] for p in pr[b] if p in dom]
            n = set.intersection(*ps) | {b} if ps else {b}
            if dom.get(b) != n:
                dom[b] = n
                changed = True
    return dom


def place_of(op):
    return op.get("copy") or op.get("move")


def is_const(op):
    return "const" in op


def callee(t):
    """The statically known callee of a call terminator (dict) or None."""
    f = t.get("f")
    if f and "const" in f:
        return f["const"].get("fn")
    return None


def ty_at(T, body, place, upto=None):
    """Type index of each prefix of a place: yields (projection element, type index before it)."""
    cur = body["locals"][place["l"]]
    for e in place["p"][:upto]:
        yield e, cur
        cur = step(T, cur, e)
    yield None, cur


def step(T, cur, e):
    if cur is None:
        return None
    n = T[cur]
    if e == "*":
        if n["k"] in ("ref", "ptr"):
            return n["t"]
        if n.get("box"):
            return n["a"][0]
        return None
    if "f" in e:
        return e["t"]
    if "v" in e:
        return cur
    if "idx" in e or "cidx" in e:
        return n.get("t")
    if "sub" in e:
        return cur
    return None


def operands(r):
    k = r["k"]
    if k in ("use", "repeat", "cast", "un"):
        return [r["x"]]
    if k == "bin":
        return [r["x"], r["y"]]
    if k == "agg":
        return r["xs"]
    return []


def places_read(s):
    """Places a statement reads (operands and borrowed places)."""
    out = []
    if s["k"] == "=":
        r = s["r"]
        for o in operands(r):
            p = place_of(o)
            if p:
                out.append(p)
        if r["k"] in ("ref", "raw", "discr") and "p" in r:
            out.append(r["p"])
    elif s["k"] == "cpynonov":
        for x in (s["src"], s["dst"], s["n"]):
            p = place_of(x)
            if p:
                out.append(p)
    elif s["k"] == "assume":
        p = place_of(s["x"])
        if p:
            out.append(p)
    return out
