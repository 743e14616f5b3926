"""Shared machinery: builds the driver, runs it over /repo's current tree, reports."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


class ToolError(Exception):
    """The check itself could not do its work (neither a pass nor a violation)."""


class Rejected(Exception):
    """A program a user may write is rejected by the compiler."""

    def __init__(self, what, log):
        super().__init__(what)
        self.log = log


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_env = None


def env():
    global _env
    if _env is None:
        e = dict(os.environ)
        for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"):
            e.pop(k, None)
        e["CARGO_NET_OFFLINE"] = "true"
        e["CARGO_INCREMENTAL"] = "0"
        ns = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip().splitlines()[-1]
        e["VERIF_NIGHTLY_SYSROOT"] = ns
        _env = e
    return dict(_env)


def write_if_changed(p, text):
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def ensure_driver():
    os.makedirs(BUILD, exist_ok=True)
    want = file_hash(glob.glob(os.path.join(ROOT, "driver", "*.rs")))
    stamp = os.path.join(BUILD, "driver.hash")
    drv = os.path.join(BUILD, "driver")
    if os.path.exists(drv) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    r = sh(["rustc", "+nightly", "-O", "--edition", "2021", "main.rs", "-o", drv],
           cwd=os.path.join(ROOT, "driver"), env=env())
    if r.returncode:
        raise ToolError("driver does not build:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(want)


def repo_sources():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.join(base, f))
    return out


def run_driver(cwd, crates, modes, parts="", features="", extra=None, target="main", package=None,
               mir="", expect_ok=True, subcommand="check", cargo_args=()):
    """Runs `cargo check` in `cwd` under the driver and returns {file name: parsed JSON}, log."""
    ensure_driver()
    e = env()
    cfg = dict(VERIF_CRATES=",".join(crates), VERIF_MODES=modes, VERIF_PARTS=parts, VERIF_MIR=mir,
               VERIF_TIER=TIER)
    cfg.update(extra or {})
    dev = os.environ.get("VERIF_DUMP_CACHE")
    ckey = None
    if dev:
        # development only: never set by the registered commands
        hs = [p for p in repo_sources()] + glob.glob(os.path.join(ROOT, "driver", "*.rs"))
        hs += glob.glob(os.path.join(cwd, "**", "*.rs"), recursive=True) if cwd.startswith(ROOT) else []
        ckey = os.path.join(dev, hashlib.sha256((file_hash(hs) + json.dumps(
            [cwd, cfg, features, package, subcommand, list(cargo_args)], sort_keys=True)).encode()).hexdigest()[:24])
        if os.path.isdir(ckey):
            return load_out(ckey), ""
    e.update(cfg)
    tgt = os.path.join(BUILD, "target-" + target)
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTC"] = os.path.join(ROOT, "tools", "rustc-shim")
    out = os.path.join(BUILD, "out", "%s-%d-%d" % (target, os.getpid(), int(time.time() * 1000)))
    os.makedirs(out)
    e["VERIF_OUT"] = out
    for pat in ("stabby*", "witness*"):
        for p in glob.glob(os.path.join(tgt, "*", ".fingerprint", pat)):
            shutil.rmtree(p, ignore_errors=True)
    cmd = ["cargo", subcommand, "--offline"]
    if package:
        cmd += ["-p", package]
    if features:
        cmd += ["--features", features]
    cmd += list(cargo_args)
    try:
        r = sh(cmd, cwd=cwd, env=e)
        if r.returncode:
            if expect_ok:
                raise Rejected("`%s` fails in %s" % (" ".join(cmd), cwd), r.stdout)
            return None, r.stdout
        res = load_out(out)
        if dev:
            shutil.copytree(out, ckey)
        return res, r.stdout
    finally:
        shutil.rmtree(out, ignore_errors=True)


def load_out(out):
    res = {}
    for p in glob.glob(os.path.join(out, "*.json")):
        with open(p) as f:
            res[os.path.basename(p)] = json.load(f)
    return res


def repo_compiles():
    """Does the library itself compile? Tells a rejected witness from a broken tree."""
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-plain")
    r = sh(["cargo", "check", "--offline", "-p", "stabby"], cwd=REPO, env=e)
    return r.returncode == 0, r.stdout


class Report:
    def __init__(self, prop, level, technique):
        self.prop, self.level, self.technique = prop, level, technique
        self.t0 = time.time()
        self.violations = []  # (key, message)
        self.coverage = {}
        self.assumptions = []
        self.obligations = 0
        self.samples = []
        self.rules = {}

    def violation(self, key, msg):
        if key not in [k for k, _ in self.violations]:
            self.violations.append((key, msg))

    def count(self, rule, n=1):
        self.rules[rule] = self.rules.get(rule, 0) + n
        self.obligations += n

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def floor(self, rule, n):
        """Fail closed: a rule that matches fewer instances than were confirmed by hand is blind."""
        got = self.rules.get(rule, 0)
        if got < n:
            self.violation("floor|" + rule,
                           "rule '%s' matched %d instances, expected at least %d: what it looks for is gone or hidden" % (rule, got, n))

    def finish(self):
        known = []
        kf = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == self.prop and k.get("status", "open") == "open"]
        kkeys = {k["key"]: k for k in known}
        new = [(k, m) for k, m in self.violations if k not in kkeys]
        old = [(k, m) for k, m in self.violations if k in kkeys]
        for k, m in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kkeys[k].get("what", m)))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        replay = os.path.join(ROOT, "evidence", self.prop + ".violations.txt")
        cov = {
            "explanation": self.technique,
            "obligations": self.obligations,
            "discharged": self.obligations - len(self.violations) if self.obligations >= len(self.violations) else 0,
            "rule_instances": self.rules,
            "samples": self.samples,
            "checker_cmd": "python3 /verif/check.py " + self.prop,
        }
        cov.update(self.coverage)
        if self.level == "proof":
            cov.setdefault("trusted_base", ["rustc nightly front end", "the rules in /verif/lib"])
        ev = {
            "property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
            "level": self.level, "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, m in new:
            print("  [%s] %s" % (k, m))
        if new:
            with open(replay, "w") as f:
                for k, m in new:
                    f.write("[%s] %s\n" % (k, m))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        if os.path.exists(replay):
            os.remove(replay)
        print("%s holds on %d obligations (%s)" % (self.prop, self.obligations, ", ".join("%s: %d" % i for i in self.rules.items())))
        return 0
