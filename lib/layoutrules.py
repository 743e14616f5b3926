"""Rules over the layout pass: claimed type-level layout against the compiler's."""
import re

CALC = ("stabby_abi::FieldPair<", "stabby_abi::Struct<", "stabby_abi::AlignedStruct<", "stabby_abi::Union<",
        "stabby_abi::istable::AlignedAfter<", "stabby_abi::istable::NicheExporter<",
        "stabby_abi::stable_impls::HasExactlyOneNiche<", "stabby_abi::typenum2::unsigned::PaddingHelper<",
        # StableLike<T, As> is the documented escape hatch: its claims are its author's promise; the
        # types that contain one are checked against their real layout like any other
        "stabby_abi::StableLike<",
        # NoNiches is only ever the `As` of a StableLike
        "stabby_abi::NoNiches<")


# tag carriers: their parameters are numbers and other tag carriers, never a payload
DETERMINANTS = ("stabby_abi::enums::",)


def short(s):
    """Readable type names: type-level numbers folded, crate prefixes dropped."""
    prev = None
    while prev != s:
        prev = s
        s = s.replace("stabby_abi::typenum2::unsigned::UTerm", "#0")
        s = re.sub(r"stabby_abi::typenum2::unsigned::UInt<#(\d+), stabby_abi::typenum2::unsigned::B([01])>",
                   lambda m: "#%d" % (int(m.group(1)) * 2 + int(m.group(2))), s)
    s = s.replace("stabby_abi::typenum2::unsigned::", "").replace("#", "U")
    return s


def num(x):
    return int(x) if isinstance(x, str) and x.isdigit() else None


def ub_bytes(ub):
    """UnusedBits list -> {offset: mask}; None when it contains something undecodable."""
    out = {}
    while True:
        if ub == "End":
            return out
        if isinstance(ub, list) and ub[0] == "Array":
            o, m = num(ub[1]), num(ub[2])
            if o is None or m is None:
                return None
            out[o] = out.get(o, 0) | m
            ub = ub[3]
        else:
            return None


def fv_patterns(fv):
    """ForbiddenValues -> list of patterns; a pattern maps offset -> (lo, hi) of that byte."""
    if fv == "End" or fv == "Saturator":
        return []
    if isinstance(fv, list):
        if fv[0] == "Or":
            a, b = fv_patterns(fv[1]), fv_patterns(fv[2])
            return None if a is None or b is None else a + b
        if fv[0] == "ForbiddenRange":
            lo, hi, o = num(fv[1]), num(fv[2]), num(fv[3])
            return None if None in (lo, hi, o) else [{o: (lo, hi)}]
        if fv[0] == "Array":
            p = {}
            while isinstance(fv, list) and fv[0] == "Array":
                o, v = num(fv[1]), num(fv[2])
                if o is None or v is None:
                    return None
                if o in p and p[o] != (v, v):
                    return []
                p[o] = (v, v)
                fv = fv[3]
            if fv in ("End", "Saturator"):
                return [p]
            rest = fv_patterns(fv)
            if rest is None:
                return None
            return [dict(list(r.items()) + list(p.items())) for r in rest] or [p]
    return None


def _exists(lo, hi, n, cons):
    """Is there a v in [lo,hi] (n bytes, little endian) whose byte i lies in cons[i]?"""
    def rec(i, lo_t, hi_t):
        # from most significant byte
        if i < 0:
            return True
        a, b = (lo >> (8 * i)) & 255, (hi >> (8 * i)) & 255
        c = cons.get(i, (0, 255))
        s = max(c[0], a if lo_t else 0)
        e = min(c[1], b if hi_t else 255)
        if s > e:
            return False
        if not lo_t and not hi_t:
            return rec(i - 1, False, False)
        # interior value frees both bounds
        for v in {s, e, s + 1 if s + 1 <= e else s}:
            if rec(i - 1, lo_t and v == a, hi_t and v == b):
                return True
        return False
    return lo <= hi and rec(n - 1, True, True)


def det_leaf(det, ok, base):
    """What the determinant contributes when the sum type holds `ok` (True/False):
    ('bits', off, mask, value) or ('bytes', {off: val}) or ('none',)."""
    inv = False
    while isinstance(det, list) and det[0] == "Not":
        inv = not inv
        det = det[1]
    is_ok = ok != inv
    if det == "BitDeterminant":
        return ("bits", base, 1, 0 if is_ok else 1)
    if det == "End":
        return ("none",)
    if isinstance(det, list) and det[0] == "BitIsErr":
        o, m = num(det[1]), num(det[2])
        if o is None or m is None:
            return ("bad",)
        return ("bits", base + o, m, 0 if is_ok else m)
    if isinstance(det, list) and det[0] == "ValueIsErr":
        p = {}
        while isinstance(det, list) and det[0] == "ValueIsErr":
            o, v = num(det[1]), num(det[2])
            if o is None or v is None:
                return ("bad",)
            p[base + o] = v
            det = det[3]
        return ("none",) if is_ok else ("bytes", p)
    return ("bad",)


def sat(t, p):
    """Can a valid value of layout tree `t` match byte pattern `p` ({abs offset: (lo,hi)})?"""
    k = t.get("k")
    if k in ("any", None):
        return True
    if k == "never":
        return False
    if k == "scalar":
        off, n, lo, hi = t["off"], t["size"], int(t["lo"]), int(t["hi"])
        cons = {o - off: r for o, r in p.items() if off <= o < off + n}
        if not cons:
            return True
        full = (1 << (8 * n)) - 1
        if lo <= hi:
            return _exists(lo, hi, n, cons)
        return _exists(0, hi, n, cons) or _exists(lo, full, n, cons)
    if k == "bitdet":
        r = p.get(t["off"])
        return True if r is None else True
    if k in ("struct", "cell"):
        return all(sat(f, p) for f in t["fields"])
    if k == "union":
        return not t["fields"] or any(sat(f, p) for f in t["fields"])
    if k == "enum":
        off, n = t["off"], t["size"]
        for v in t["variants"]:
            if v["tag"] is None:
                # the untagged variant of a niche encoding: its payload avoids the niche values
                if all(sat(f, p) for f in v["fields"]):
                    return True
                continue
            tag = int(v["tag"])
            ok = True
            for i in range(n):
                r = p.get(off + i)
                if r and not (r[0] <= ((tag >> (8 * i)) & 255) <= r[1]):
                    ok = False
            if ok and all(sat(f, p) for f in v["fields"]):
                return True
        return False
    if k == "sum":
        for name, is_ok in (("ok", True), ("err", False)):
            if name not in t:
                return True
            d = det_leaf(t["det"], is_ok, t["off"])
            if d[0] == "bad":
                return True
            good = True
            if d[0] == "bits":
                r = p.get(d[1])
                if r and not any((x & d[2]) == d[3] for x in range(r[0], r[1] + 1)):
                    good = False
            if d[0] == "bytes":
                for o, v in d[1].items():
                    r = p.get(o)
                    if r and not (r[0] <= v <= r[1]):
                        good = False
            if good and sat(t[name], p):
                return True
        return False
    return True


def used_bits(t, out):
    """Collects {byte: mask of bits in which some value stores information}."""
    k = t.get("k")
    if k == "scalar":
        for i in range(t["size"]):
            out[t["off"] + i] = 255
    elif k == "any":
        for i in range(t["size"]):
            out[t["off"] + i] = 255
    elif k == "bitdet":
        out[t["off"]] = out.get(t["off"], 0) | 1
    elif k == "cell":
        # shared handles may rewrite the whole object, padding included
        for i in range(t["size"]):
            out[t["off"] + i] = 255
    elif k in ("struct", "union"):
        for f in t["fields"]:
            used_bits(f, out)
    elif k == "enum":
        for i in range(t["size"]):
            out[t["off"] + i] = 255
        for v in t["variants"]:
            for f in v["fields"]:
                used_bits(f, out)
    elif k == "sum":
        for n, is_ok in (("ok", True), ("err", False)):
            if n in t:
                used_bits(t[n], out)
            d = det_leaf(t["det"], is_ok, t["off"])
            if d[0] == "bits":
                out[d[1]] = out.get(d[1], 0) | d[2]
            elif d[0] == "bytes":
                for o in d[1]:
                    out[o] = 255
    return out


def has_ptr(t):
    k = t.get("k")
    if k == "scalar":
        return t.get("ptr", False)
    if k in ("struct", "union", "cell"):
        return any(has_ptr(f) for f in t["fields"])
    if k == "enum":
        return any(has_ptr(f) for v in t["variants"] for f in v["fields"])
    if k == "sum":
        return any(n in t and has_ptr(t[n]) for n in ("ok", "err"))
    return False


def check_entries(d):
    """-> {property: [(entry, message)]}, counts."""
    stats = dict(entries=0, calc=0, size=0, align=0, ub=0, fv=0, niche=0, ind=0)
    res = {"C01": [], "C02": [], "C03": [], "C32": []}
    for e in d["entries"]:
        s = e["s"]
        stats["entries"] += 1
        if s.startswith(CALC):
            stats["calc"] += 1
            continue
        if e.get("uninhabited"):
            continue
        c = e["claims"]
        n = short(s)
        sz, al = num(c["Size"]), num(c["Align"])
        stats["size"] += 1
        stats["align"] += 1
        if sz is None or "size" not in e:
            res["C01"].append((e, "size of %s is not a number at type level (%r)" % (n, c["Size"])))
            continue
        if sz != e["size"]:
            res["C01"].append((e, "%s advertises size %s, the compiler lays it out in %s bytes" % (n, sz, e["size"])))
        if al != e["align"]:
            res["C01"].append((e, "%s advertises alignment %s, the compiler uses %s" % (n, al, e["align"])))
        t = e["tree"]
        ub = ub_bytes(c["UnusedBits"])
        if ub is None:
            res["C02"].append((e, "unused bits of %s are not decodable: %r" % (n, c["UnusedBits"])))
        elif ub:
            stats["ub"] += 1
            used = used_bits(t, {})
            for o, m in sorted(ub.items()):
                if o >= e["size"]:
                    res["C02"].append((e, "%s advertises unused bits at byte %d, outside its %d bytes" % (n, o, e["size"])))
                elif m > 255 or used.get(o, 0) & m:
                    res["C02"].append((e, "%s advertises bits %#x of byte %d as unused, but its values use bits %#x of it" % (n, m, o, used.get(o, 0))))
        fv = fv_patterns(c["ForbiddenValues"])
        if fv is None:
            res["C02"].append((e, "forbidden values of %s are not decodable: %r" % (n, c["ForbiddenValues"])))
        else:
            if fv:
                stats["fv"] += 1
            for p in fv:
                if any(o >= e["size"] for o in p):
                    res["C02"].append((e, "%s forbids a pattern at byte %d, outside its %d bytes" % (n, max(p), e["size"])))
                elif sat(t, p):
                    res["C02"].append((e, "%s advertises %s as forbidden, but a valid value can look like that" % (n, " ".join("byte[%d]=%s" % (o, a if a == b else "%d..=%d" % (a, b)) for o, (a, b) in sorted(p.items())))))
        h = c["HasExactlyOneNiche"]
        nn = e.get("niche")
        avail = int(nn) if nn is not None else 0
        stats["niche"] += 1
        if h == "b0" and (avail != 0 or e.get("opt_size") == e["size"]) and e["size"] > 0:
            res["C03"].append((e, "%s claims to have no Rust niche, the compiler finds %s" % (n, avail)))
        elif h == "b1" and (avail != 1 or e.get("opt_size") != e["size"]):
            res["C03"].append((e, "%s claims exactly one Rust niche, the compiler finds %s" % (n, avail)))
        elif h not in ("b0", "b1", "Saturator"):
            res["C03"].append((e, "niche count of %s is not decodable: %r" % (n, h)))
        stats["ind"] += 1
        if has_ptr(t) and c["ContainsIndirections"] != "b1" and not s.startswith(DETERMINANTS):
            res["C32"].append((e, "%s contains a pointer but claims to contain no indirection" % n))
    return res, stats
