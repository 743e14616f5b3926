import os
import re
import common as C
import facts
import programs as P

# Types giving exclusive or interior mutable access to a T: shortening or lengthening T's lifetimes
# through them would let a value of the wrong lifetime be stored.
INVARIANT = {
    "slice::SliceMut": "T", "result::OkGuard": "Ok Err", "result::ErrGuard": "Ok Err",
    "alloc::single_or_vec::SliceGuardMut": "T", "alloc::single_or_vec::IterMut": "T",
    "alloc::vec::Drain": "T", "alloc::vec::DoubleEndedDrain": "T", "as_mut::MutAs": "T",
    "alloc::sync::AtomicArc": "T", "alloc::collections::arc_btree::AtomicArcBTreeSet": "T",
    "checked_import::CheckedImport": "F",
}
# Lifetime parameters of borrows: lengthening them is never allowed.
ITER = re.compile(r"iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)>::")
STATIC_OK = ("stabby_abi::report::TypeReport", "stabby_abi::report::FieldReport", "str")


def signatures(rep, F):
    for f in F.fns:
        if f["kind"] not in ("Fn", "AssocFn") or not f["pub"]:
            continue
        if f["unsafe"]:
            continue
        rep.count("safe signatures")
        T = f["T"]
        ins = {}
        for r, c in f["rin"]:
            ins.setdefault(r, set()).add(c)
        key = "%s" % f["path"]
        for r, c in f["rout"]:
            if r.startswith("'^") or (r == "'_" and r in ins):
                continue  # bound inside a function pointer type, or elided from an input
            if r == "'static":
                if r in ins or any("'static" in p for p in f["preds"]):
                    continue
                out = f["sig"].rsplit("->", 1)[-1]
                if any(x in out for x in ("&'static " + s for s in STATIC_OK)):
                    continue
                rep.violation("static|" + key, "%s makes up a 'static borrow out of inputs that have none: %s (%s)" % (f["path"], f["sig"], f["loc"]))
                break
            if r not in ins and not any(re.search(r": (?:[^,]*\+ )?%s\b" % re.escape(r), p) or p.startswith("TypeOutlives") or
                                        ("OutlivesPredicate" in p and r in p) for p in f["preds"]):
                rep.violation("unbound|" + key, "the lifetime %s in the result of %s comes from no argument: %s (%s)" % (r, f["path"], f["sig"], f["loc"]))
                break
        # results borrowed for longer than the receiver is
        if f.get("recv") and f["self_param"]:
            r0, m, xt = f["recv"]
            node = T[xt]
            for r, c in f["rout"]:
                if r in (r0, "'static") or r.startswith("'^"):
                    continue
                if c == "mut" and not ITER.search(f["path"]) and r in {a for a, _ in f.get("rself", [])}:
                    rep.violation("outlives|" + key, "%s lends its contents mutably for longer than itself is borrowed: %s (%s)" % (f["path"], f["sig"], f["loc"]))
                    break
                if c == "shared" and node["k"] == "adt":
                    a = F.adt.get(node["p"])
                    if a and not a["copy"] and not ITER.search(f["path"]) and not const_ok(f, a):
                        rep.violation("outlives|" + key, "%s lends out of a type that isn't a shared borrow for longer than it is borrowed: %s (%s)" % (f["path"], f["sig"], f["loc"]))
                        break


def const_ok(f, adt):
    """Sharing for the type's own lifetime is sound when what is shared is a field that is itself a
    'static or that long a reference (e.g. a vtable)."""
    T = f["T"]
    out = T[f["output"]]
    if out["k"] != "ref" or out["mut"]:
        return False
    tgt = T[out["t"]]["s"]
    for v in adt["variants"]:
        for fd in v["fields"]:
            n = adt["T"][fd["t"]]
            if n["k"] == "ref" and not n["mut"] and adt["T"][n["t"]]["s"] == tgt:
                return True
    return False


def variances(rep, F):
    for p, names in INVARIANT.items():
        a = F.adt.get("stabby_abi::" + p)
        if a is None:
            continue
        v = dict(map(tuple, a["variances"]))
        for n in names.split():
            if n not in v:
                # renamed parameters: every type parameter but an allocator has to be invariant
                for k, x in v.items():
                    if not k.startswith("'") and k not in ("Alloc", "As") and x not in ("o", "*"):
                        rep.violation("variance|%s|%s" % (p, k), "%s gives mutable access to %s but is %s in it" % (p, k, x))
                break
            rep.count("variances")
            if v[n] != "o":
                rep.violation("variance|%s|%s" % (p, n), "%s gives mutable access to %s but its lifetimes may be %s through it (%s)" % (
                    p, n, {"+": "shortened", "-": "lengthened", "*": "changed"}.get(v[n], v[n]), a["loc"]))
    for a in F.adts:
        for n, x in a["variances"]:
            if n.startswith("'") and a["pub"]:
                rep.count("variances")
                if x in ("-", "*"):
                    rep.violation("variance|%s|%s" % (a["path"], n), "%s's borrow can be lengthened: it is %s in %s (%s)" % (a["path"], x, n, a["loc"]))


def check():
    rep = C.Report("C11", "other", "every program of a table of programs that would keep, duplicate or stretch a borrow is rejected by the compiler, and its well-scoped twin accepted; every safe public signature's result lifetimes come from its arguments; every type giving mutable access is invariant in what it gives access to")
    progs = P.parse(os.path.join(C.ROOT, "witness", "programs", "borrow.txt"))
    P.judge(rep, progs, P.run(progs), "a program that keeps, duplicates or stretches a borrow")
    F = facts.load()
    signatures(rep, F)
    variances(rep, F)
    rep.floor("rejected programs", 150)
    rep.floor("safe signatures", 400)
    rep.floor("variances", 18)
    return rep
