"""C04 at type level: for every pair of payload types, where the tag lives and whether it is free."""
import layoutrules as L
from layoutrules import num, ub_bytes, fv_patterns, sat, used_bits, short


def writes(det, ok):
    """Bits the determinant touches when it records a variant: {offset: mask}; what a reader of the
    other variant must not see: ('bit', off, mask) or ('bytes', {off: val}) or None."""
    inv = False
    while isinstance(det, list) and det[0] == "Not":
        inv = not inv
        det = det[1]
    is_ok = ok != inv
    if det == "BitDeterminant":
        return {}, ("ext",)
    if det == "End":
        return {}, ("none",)
    if isinstance(det, list) and det[0] == "BitIsErr":
        o, m = num(det[1]), num(det[2])
        if o is None or m is None or not 0 < m < 256:
            return None, None
        # a mask of 1 means the byte is padding: it is cleared first
        return {o: 255 if m == 1 else m}, ("bit",)
    if isinstance(det, list) and det[0] == "ValueIsErr":
        p = {}
        while isinstance(det, list) and det[0] == "ValueIsErr":
            o, v = num(det[1]), num(det[2])
            if o is None or v is None or o in p or v > 255:
                return None, None
            p[o] = v
            det = det[3]
        if det != "End":
            return None, None
        return ({} if is_ok else {o: 255 for o in p}), ("bytes", p, is_ok)
    return None, None


def check(d):
    ents = {e["s"]: e for e in d["entries"]}
    used = {}
    out = []
    stats = dict(pairs=0, external=0, bit=0, value=0, inverted=0, residual=0)
    for p in d["pairs"]:
        ok, err = p["ok"], p["err"]
        if ok not in ents or err not in ents:
            continue
        stats["pairs"] += 1
        eo, ee = ents[ok], ents[err]
        n = "Result<%s, %s>" % (short(ok), short(err))

        def bad(m, rule):
            out.append((p, "%s: %s" % (n, m), rule))
        so, se = num(p["OkShift"]), num(p["ErrShift"])
        oo, eo_off, do = num(p.get("ok_off")), num(p.get("err_off")), num(p.get("det_off"))
        det = p["Determinant"]
        ds = num(p.get("det_size"))
        size, align = p.get("size"), p.get("align")
        if None in (so, se, oo, eo_off, do, ds, size, align):
            bad("layout is not decidable", "decidable")
            continue
        if num(p["c_size"]) != size or num(p["c_align"]) != align:
            bad("advertises %s bytes aligned to %s, stored in %s aligned to %s" % (p["c_size"], p["c_align"], size, align), "size")
        for nm, e, off in (("Ok", eo, oo), ("Err", ee, eo_off)):
            if off + e["size"] > size:
                bad("the %s payload at %d..%d leaves the %d bytes of storage" % (nm, off, off + e["size"], size), "bounds")
            if (off % e["align"]) or (align % e["align"]):
                bad("the %s payload at %d is not aligned to %d" % (nm, off, e["align"]), "aligned")
            if off < do and e["size"] > 0 and ds > 0:
                bad("the %s payload at %d overlaps the external tag (%d bytes)" % (nm, off, ds), "overlap")
        if oo - do != so or eo_off - do != se:
            bad("payload offsets %d/%d do not match the shifts %d/%d behind a tag of %d bytes" % (oo, eo_off, so, se, do), "shift")
        trick = p.get("niche_trick")
        base = det
        while isinstance(base, list) and base[0] == "Not":
            base = base[1]
        if isinstance(base, list) and trick != "b1":
            bad("its tag lives inside the payload but is not re-established after mutation", "trick")
        for name, e, off, is_ok in (("Ok", eo, oo, True), ("Err", ee, eo_off, False)):
            w, rd = writes(det, is_ok)
            if w is None:
                bad("tag %r is not decodable" % (det,), "decodable")
                break
            if rd[0] == "none":
                # no tag at all: fine only if one of the variants cannot exist
                if not (eo.get("uninhabited") or ee.get("uninhabited")):
                    bad("records no variant at all", "none")
                continue
            if e["s"] not in used:
                used[e["s"]] = used_bits(e["tree"], {})
            u = used[e["s"]]
            for o, m in w.items():
                if o >= size:
                    bad("the tag is written at byte %d, outside the storage" % o, "tagbounds")
                if u.get(o - off, 0) & m:
                    bad("recording %s writes bits %#x of byte %d, in which %s stores information" % (name, m, o, short(e["s"])), "tagoverlap")
            if rd[0] == "bytes" and rd[2]:
                if e.get("uninhabited"):
                    continue
                pat = {o - off: (v, v) for o, v in rd[1].items()}
                if sat(e["tree"], pat):
                    bad("a valid %s value can look like the other variant (%s)" % (name, ", ".join("byte[%d]=%d" % i for i in sorted(rd[1].items()))), "confusable")
        stats["inverted"] += isinstance(det, list) and det[0] == "Not"
        stats["external"] += base == "BitDeterminant"
        stats["bit"] += isinstance(base, list) and base[0] == "BitIsErr"
        stats["value"] += isinstance(base, list) and base[0] == "ValueIsErr"
        # what is left for the next level of sum types
        tree = {"k": "sum", "off": 0, "det": det, "ok": _shift(eo["tree"], oo), "err": _shift(ee["tree"], eo_off)}
        ub, fv = ub_bytes(p.get("c_ub")), fv_patterns(p.get("c_fv"))
        if ub is None or fv is None:
            bad("residual niches are not decodable", "residual")
            continue
        if ub:
            stats["residual"] += 1
            u = used_bits(tree, {})
            for o, m in ub.items():
                if o >= size or u.get(o, 0) & m:
                    bad("hands bits %#x of byte %d to an enclosing sum type, though they are in use" % (m, o), "residual")
                    break
        for q in fv:
            if any(o >= size for o in q) or sat(tree, q):
                bad("hands a value to an enclosing sum type (%s) that it can take itself" % ", ".join("byte[%d]=%d..%d" % (o, a, b) for o, (a, b) in sorted(q.items())), "residual")
                break
    return out, stats


def _shift(t, by):
    if by == 0:
        return t
    k = t.get("k")
    r = dict(t)
    if "off" in r:
        r["off"] = r["off"] + by
    if k in ("struct", "cell", "union"):
        r["fields"] = [_shift(f, by) for f in t["fields"]]
    if k == "enum":
        r["variants"] = [dict(v, fields=[_shift(f, by) for f in v["fields"]]) for v in t["variants"]]
    if k == "sum":
        for n in ("ok", "err"):
            if n in t:
                r[n] = _shift(t[n], by)
    return r
