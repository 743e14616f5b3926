"""C22: every type-level operation, normalised by the trait solver, against integer arithmetic."""
import json
import zlib
import common as C
import layoutcheck

CMP = "stabby_abi::typenum2::unsigned::"


def isp2(n):
    return n > 0 and n & (n - 1) == 0


def bit(b):
    return "b1" if b else "b0"


def x(s):
    return 1 if s == "b1" else 0


def pow2ceil_mult(a, t):
    return (a + t - 1) // t * t


UN2 = {
    "Add": lambda a, b: str(a + b), "AbsSub": lambda a, b: str(abs(a - b)),
    "BitAnd": lambda a, b: str(a & b), "BitOr": lambda a, b: str(a | b),
    "Equal": lambda a, b: bit(a == b), "NotEqual": lambda a, b: bit(a != b),
    "Greater": lambda a, b: bit(a > b), "GreaterOrEq": lambda a, b: bit(a >= b),
    "Smaller": lambda a, b: bit(a < b), "SmallerOrEq": lambda a, b: bit(a <= b),
    "Min": lambda a, b: str(min(a, b)), "Max": lambda a, b: str(max(a, b)),
    "Mul": lambda a, b: str(a * b),
    "Truncate": lambda a, b: str(a if b > 64 else a & ((1 << b) - 1)),
    "Mod": lambda a, b: str(a % b) if isp2(b) else "rejected",
    "NextMultipleOf": lambda a, b: str(pow2ceil_mult(a, b)) if isp2(b) else "rejected",
    "Cmp": lambda a, b: CMP + ("Equal" if a == b else "Greater" if a > b else "Lesser"),
}
P22 = {
    "Divide": lambda a, b: str(b // a), "Modulate": lambda a, b: str(b % a),
    "Min": lambda a, b: str(min(a, b)) if isp2(b) else "rejected",
    "Max": lambda a, b: str(max(a, b)) if isp2(b) else "rejected",
}
B1 = {"And": lambda a, b: bit(a and b), "Or": lambda a, b: bit(a or b), "Nand": lambda a, b: bit(not (a and b)),
      "Xor": lambda a, b: bit(a ^ b), "Equals": lambda a, b: bit(a == b)}
B2 = {"AdderSum": lambda a, b, c: bit((a + b + c) & 1), "AdderCarry": lambda a, b, c: bit(a + b + c > 1),
      "SuberSum": lambda a, b, c: bit((a - b - c) & 1), "SuberCarry": lambda a, b, c: bit(a - b - c < 0)}
TERN = ("Ternary", "UTernary", "NzTernary", "BTernary", "PTernary", "SaddTernary", "BmTernary", "FvTernary", "StabTernary")
# what the operands of a bound-preserving ternary must be
TERN_NUM = {"Ternary": True, "UTernary": True, "NzTernary": True, "PTernary": True}
TERN_BIT = {"Ternary": True, "BTernary": True, "SaddTernary": True}


def expected(tr, name, s, a):
    """None: not specified here."""
    if tr == "IUnsigned" or tr == "IUnsignedBase" or tr == "IPowerOf2" or tr == "NonZero" or tr == "Alignment":
        n = int(s)
        if a.startswith("b"):
            return "rejected"  # a bit is not a number
        if tr == "IUnsigned" and name in UN2 and a:
            return UN2[name](n, int(a))
        if tr == "IPowerOf2":
            if not isp2(n):
                return "!only powers of two implement it"
            if name in P22 and a:
                return P22[name](n, int(a))
            if name == "Log2":
                return str(n.bit_length() - 1)
        if tr == "NonZero":
            if n == 0:
                return "!zero must not implement it"
            if name == "Decrement":
                return str(n - 1)
            if name == "TruncateAtRightmostOne":
                return str(n & -n)
        if tr == "IUnsigned" and name == "NonZero":
            return s if n else None
        if name == "Padding":
            return "layout %d 1" % n
        if name == "PaddingBitMask":
            e = "End"
            for i in reversed(range(n)):
                e = ["Array", str(i), "255", e]
            return json.dumps(e, separators=(",", ":"))
        if name == "Array" and a:
            sz, al = map(int, a.split())
            return "layout %d %d" % (n * sz, al if n else 1)
        if tr == "IUnsignedBase":
            if name == "Increment":
                return str(n + 1)
            if name == "Bit":
                return bit(n & 1)
            if name == "Msb":
                return str(n >> 1)
        if tr == "Alignment":
            if not isp2(n):
                return "!only powers of two are alignments"
            if name == "AsUint":
                return "layout %d %d" % (n, n)
            if name == "Max" and a:
                if int(a) > 1 << 15:
                    return None  # alignments stop at what the target supports
                return str(max(n, int(a))) if isp2(int(a)) else "rejected"
        return None
    if tr == "IBit":
        b = s == "1"
        if name == "Not":
            return bit(not b)
        if name in B1 and a:
            return B1[name](b, x(a)) if a.startswith("b") else "rejected"
        if "," in a:
            p, q = a.split(",")
            isbit = p.startswith("b")
            if name in B2:
                return B2[name](int(b), x(p), x(q)) if isbit else "rejected"
            if name in TERN:
                if (isbit and name in TERN_BIT) or (not isbit and name in TERN_NUM):
                    return p if b else q
                return "rejected"
    return None


FLOOR = {"IUnsigned": 40000, "IPowerOf2": 2000, "NonZero": 80, "IBit": 400, "Alignment": 400}


def check():
    rep = C.Report("C22", "other", "every associated type of the type-level number traits is normalised by the compiler's trait solver over a grid of operands (0..=33, byte/word boundaries, up to 2^63) and compared with integer arithmetic; constants are evaluated by the compiler; named constants and macro expressions likewise")
    d = layoutcheck.dump("nums,named")
    per = {}
    for tr, name, s, a, r in d["nums"]:
        e = expected(tr, name, s, a)
        if e is None:
            continue
        per[tr] = per.get(tr, 0) + 1
        rep.count("%s::%s" % (tr, name))
        if name == "Array" and e.startswith("layout 0"):
            e = r if r.startswith("layout 0 ") else e
        if e != r:
            if e.startswith("!"):
                rep.violation("%s|%s|%s" % (tr, name, s), "%s is implemented for %s: %s" % (tr, s, e[1:]))
            else:
                k = "<%s as %s>::%s%s" % (s, tr, name, "<%s>" % a if a else "")
                rep.violation("%s|%s" % (tr, name), "%s normalises to %s, arithmetic says %s" % (k, r, e))
        elif len(rep.samples) < 10 and zlib.crc32(repr((tr, name, s, a)).encode()) % 4001 == 0:
            rep.sample("<%s as %s>::%s<%s> = %s" % (s, tr, name, a, r))
    for tr, n in FLOOR.items():
        if per.get(tr, 0) < n:
            rep.violation("floor|" + tr, "only %d results of %s could be checked (%d expected)" % (per.get(tr, 0), tr, n))
    width = {"U128": 128, "_U128": 128, "USIZE": 64, "U64": 64, "U32": 32, "U16": 16, "U8": 8}
    nc = 0
    for tr, name, s, v in d["numc"]:
        if name in width:
            nc += 1
            w = int(s) & ((1 << width[name]) - 1)
            if str(v) != str(w):
                rep.violation("const|" + name, "<%s as %s>::%s evaluates to %s, expected %s" % (s, tr, name, v, w))
        elif name.endswith("BOOL"):
            nc += 1
            if v not in (s == "1", s) and str(v).lower() not in (("true", "1") if s == "1" else ("false", "0")):
                rep.violation("const|" + name, "<%s as %s>::%s evaluates to %s" % (s, tr, name, v))
    rep.count("constants", nc)
    rep.floor("constants", 350)
    nn = ne = 0
    for n, v in d["named"]:
        w = None
        base = {"U": 10, "Ux": 16, "Ub": 2}
        if n.startswith(("Num", "Bit")) and "_" in n:
            w = n[3:].split("_")[0]
            w = w if n.startswith("Num") else "b" + w
            ne += 1
        elif n.startswith("U2pow"):
            w = str(2 ** int(n[5:]))
        elif n.startswith("U10pow"):
            w = str(10 ** int(n[6:]))
        elif n.startswith("Ux"):
            w = str(int(n[2:], 16)) if all(c in "0123456789ABCDEFabcdef" for c in n[2:]) else None
        elif n.startswith("Ub"):
            w = str(int(n[2:], 2)) if n[2:].isdigit() else None
        elif n.startswith("U") and n[1:].isdigit():
            w = n[1:]
        if w is None:
            continue
        nn += 1
        if w != v:
            rep.violation("named|" + n, "%s denotes %s" % (n, v))
    rep.count("named numbers", nn)
    rep.count("tyeval! expressions", ne)
    rep.floor("named numbers", 3000)
    rep.floor("tyeval! expressions", 15)
    rep.coverage["per_trait"] = per
    rep.coverage["exhaustive"] = False
    rep.assumptions = ["operand grid: 0..=33 and selected larger values; operations are defined by recursion on bits, so each recursion case is exercised"]
    return rep
