"""The facts of /repo's crates (signatures, impls, ADTs, optimized generic MIR)."""
import os
import common as C

CRATES = ["stabby_abi", "stabby"]
_cache = None


class Facts:
    def __init__(self, files, crates=CRATES):
        self.fns, self.impls, self.adts, self.traits, self.foreign, self.externs, self.statics, self.consts = [], [], [], [], [], [], [], []
        for c in crates:
            f = files.get(c + ".facts.json")
            if f is None:
                raise C.ToolError("no facts for " + c)
            T = f["types"]
            for k in ("fns", "impls", "adts", "traits", "foreign", "externs", "statics", "consts"):
                for x in f.get(k, []):
                    x["T"] = T
                    x["crate"] = c
                    getattr(self, k).append(x)
        self.byfn = {}
        for f in self.fns:
            self.byfn.setdefault(f["path"], []).append(f)
        self.adt = {a["path"]: a for a in self.adts}


def load_with(cwd, crate, target, features=""):
    """The library's facts together with those of a witness crate that depends on it."""
    crates = CRATES + [crate]
    out, _ = C.run_driver(cwd, crates, "facts", target=target, features=features)
    return Facts(out, crates)


def load():
    global _cache
    if _cache is None:
        out, _ = C.run_driver(C.REPO, CRATES, "facts", package="stabby", features="libloading", target="facts")
        _cache = Facts(out)
    return _cache
