"""C04: sum types never confuse variants."""
import common as C
import layoutcheck
import pairrules


def check():
    rep = C.Report("C04", "other", "for every ordered pair of the payload pool, the tag the trait solver chooses is compared with the compiler's layout of both payloads: in bounds, aligned, no overlap with used bits, no payload value that reads as the other variant, residual niches really free")
    d = layoutcheck.dump("pairs")
    out, stats = pairrules.check(d)
    for k, v in stats.items():
        rep.count(k, v)
    rep.floor("pairs", 13000)
    rep.floor("external", 4000)
    rep.floor("bit", 3000)
    rep.floor("value", 3500)
    rep.floor("residual", 9000)
    for p in d["pairs"][:: max(1, len(d["pairs"]) // 8)]:
        rep.sample("Result<%s, %s>: tag %s, shifts %s/%s, size %s" % (p["ok"], p["err"], str(p["Determinant"])[:120], p["OkShift"], p["ErrShift"], p.get("size")))
    for p, m, rule in out:
        rep.violation("%s|Result<%s,%s>" % (rule, p["ok"], p["err"]), m)
    return rep
