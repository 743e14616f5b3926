"""Compiles small programs against /repo's current libraries: twins that must be accepted and
variants that must be rejected."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import tempfile
import common as C

CARGO = """[package]
name = "witness-programs"
version = "0.0.0"
edition = "2021"
publish = false
[lib]
name = "witness_programs"
path = "lib.rs"
[workspace]
[dependencies]
stabby = { path = "%(repo)s/stabby", features = ["libloading"] }
"""


def build(release=False):
    """Builds the libraries once; returns rustc arguments for programs depending on them."""
    d = os.path.join(C.BUILD, "gen", "programs")
    os.makedirs(d, exist_ok=True)
    C.write_if_changed(os.path.join(d, "lib.rs"), "pub use stabby;\n")
    C.write_if_changed(os.path.join(d, "Cargo.toml"), CARGO % {"repo": C.REPO})
    lock = os.path.join(C.REPO, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    e = C.env()
    tgt = os.path.join(C.BUILD, "target-programs")
    e["CARGO_TARGET_DIR"] = tgt
    r = C.sh(["cargo", "build", "--offline", "--message-format=json"], cwd=d, env=e)
    libs = {}
    msgs = []
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            msgs.append(line)
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    libs[m["target"]["name"].replace("-", "_")] = f
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            msgs.append(m["message"]["rendered"])
    if r.returncode:
        raise C.ToolError("the libraries do not build:\n" + "\n".join(msgs)[-3000:])
    args = ["-L", "dependency=" + os.path.join(tgt, "debug", "deps")]
    for n in ("stabby", "libloading"):
        args += ["--extern", "%s=%s" % (n, libs[n])]
    return args


PRELUDE = """#![allow(warnings)]
use stabby::{alloc::DefaultAllocator as DA, boxed::{Box, BoxedSlice, BoxedStr}, sync::{Arc, ArcSlice, AtomicArc, Weak, WeakSlice}, vec::Vec,
    string::{ArcStr, String}, slice::{Slice, SliceMut}, str::{Str, StrMut}, option::Option as SOption, result::{Result as SResult, OkGuard, ErrGuard},
    alloc::single_or_vec::{SingleOrVec, SliceGuardMut}, collections::arc_btree::{ArcBTreeSet, ArcBTreeMap, AtomicArcBTreeSet}};
fn use_<T>(_: T) {}
"""


def parse(path):
    """=== id / common / --- good / ... / --- bad / ..."""
    out = []
    for blk in re.split(r"^=== ", open(path).read(), flags=re.M)[1:]:
        name, rest = blk.split("\n", 1)
        parts = re.split(r"^--- (\w+)\n", rest, flags=re.M)
        d = {"id": name.strip(), "common": parts[0], "good": [], "bad": []}
        for k, v in zip(parts[1::2], parts[2::2]):
            d[k].append(v)
        out.append(d)
    return out


def compile_one(args, src, work, name, emit="metadata"):
    p = os.path.join(work, name + ".rs")
    with open(p, "w") as f:
        f.write(src)
    r = C.sh(["rustc", "--edition", "2021", "--crate-type", "bin", "--crate-name", "w_" + re.sub(r"\W", "_", name),
              "--emit=" + emit, "-Copt-level=0", "-Cdebuginfo=0", "--error-format=json", "-o", os.path.join(work, name + ".out"), p] + args,
             cwd=work, env=dict(C.env(), CARGO_MANIFEST_DIR=os.path.join(C.BUILD, "gen", "programs"), CARGO_PKG_NAME="witness-programs",
                            CARGO_PKG_VERSION="0.0.0", CARGO_CRATE_NAME="witness"))
    codes, texts = [], []
    for line in r.stdout.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("level") == "error" or str(m.get("level", "")).startswith("error"):
                codes.append((m.get("code") or {}).get("code") or "-")
                texts.append(m["message"])
        elif line.strip():
            texts.append(line)
    return r.returncode == 0, codes, texts


def run(progs, prelude=PRELUDE, emit="metadata"):
    """{(id, kind, index): (accepted, codes, messages)}"""
    args = build()
    work = tempfile.mkdtemp(prefix="programs-", dir=C.BUILD)
    try:
        jobs = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for p in progs:
                for kind in ("good", "bad"):
                    for i, v in enumerate(p[kind]):
                        jobs[(p["id"], kind, i)] = ex.submit(
                            compile_one, args, prelude + p["common"] + v, work, "%s-%s-%d" % (p["id"], kind, i), emit)
        return {k: f.result() for k, f in jobs.items()}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def judge(rep, progs, res, what):
    for p in progs:
        for i, _ in enumerate(p["good"]):
            ok, codes, texts = res[(p["id"], "good", i)]
            rep.count("accepted programs")
            if not ok:
                rep.violation("rejected|%s|%d" % (p["id"], i), "a %s program is rejected (%s): %s\n%s" % (
                    "valid", p["id"], "; ".join(texts)[:400], p["common"] + p["good"][i]))
        for i, v in enumerate(p["bad"]):
            ok, codes, texts = res[(p["id"], "bad", i)]
            rep.count("rejected programs")
            if ok:
                rep.violation("accepted|%s|%d" % (p["id"], i), "%s (%s) is accepted:\n%s" % (what, p["id"], p["common"] + v))
            else:
                rep.sample("%s rejected with %s: %s" % (p["id"], ",".join(sorted(set(codes))), texts[0][:120]), 15)
