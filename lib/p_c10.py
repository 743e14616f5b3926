"""C10: Send/Sync of every public type against what it owns, borrows or shares."""
import itertools
import os
import common as C

# classes of parameters: (suffix, Send, Sync)
CLS = [("B", 1, 1), ("S", 1, 0), ("Y", 0, 1), ("N", 0, 0)]

HEAD = """#![allow(dead_code, unused, non_camel_case_types)]
use core::marker::PhantomData;
use core::cell::Cell;
use stabby::alloc::{IAlloc, Layout};
use stabby::abi::vtable::{VTable, VtDrop, VtSend, VtSync};
use stabby::abi as abi;
"""
PARAM = """
#[stabby::stabby] #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct T{c} {{ x: u8, p: PhantomData<{m}> }}
{imp}
#[stabby::stabby] #[derive(Clone, Copy, Default)]
pub struct A{c} {{ x: u8, p: PhantomData<{m}> }}
{impa}
impl IAlloc for A{c} {{
    fn alloc(&mut self, _: Layout) -> *mut () {{ loop {{}} }}
    unsafe fn free(&mut self, _: *mut ()) {{ loop {{}} }}
}}
"""


def S(*xs):
    return lambda e: all(e[x][0] for x in xs)


def Y(*xs):
    return lambda e: all(e[x][1] for x in xs)


def SY(*xs):
    return lambda e: all(e[x][0] and e[x][1] for x in xs)


def K(v):
    return lambda e: v


def owned(expr, *ps):
    return (expr, S(*ps), Y(*ps), "owns %s" % ", ".join(ps))


def shared(expr, *ps):
    return (expr, SY(*ps), SY(*ps), "shares ownership of %s" % ", ".join(ps))


G = "stabby::result::"
ROWS = [
    owned("stabby::boxed::Box<T, A>", "T", "A"),
    owned("stabby::boxed::BoxedSlice<T, A>", "T", "A"),
    owned("stabby::vec::Vec<T, A>", "T", "A"),
    owned("abi::alloc::vec::IntoIter<T, A>", "T", "A"),
    owned("abi::alloc::vec::Drain<'static, T, A>", "T", "A"),
    owned("abi::alloc::vec::DoubleEndedDrain<'static, T, A>", "T", "A"),
    owned("stabby::string::String<A>", "A"),
    owned("stabby::boxed::BoxedStr<A>", "A"),
    shared("stabby::string::ArcStr<A>", "A"),
    shared("stabby::string::WeakStr<A>", "A"),
    shared("stabby::sync::Arc<T, A>", "T", "A"),
    shared("stabby::sync::Weak<T, A>", "T", "A"),
    shared("stabby::sync::ArcSlice<T, A>", "T", "A"),
    shared("stabby::sync::WeakSlice<T, A>", "T", "A"),
    shared("stabby::sync::AtomicArc<T, A>", "T", "A"),
    shared("stabby::collections::arc_btree::ArcBTreeSet<T, A>", "T", "A"),
    shared("stabby::collections::arc_btree::ArcBTreeMap<T, E, A>", "T", "E", "A"),
    shared("stabby::collections::arc_btree::AtomicArcBTreeSet<T, false, 5>", "T"),
    owned("stabby::result::Result<T, E>", "T", "E"),
    owned("stabby::option::Option<T>", "T"),
    owned("stabby::option::Option<stabby::option::Option<T>>", "T"),
    owned("stabby::result::Result<stabby::boxed::Box<T>, E>", "T", "E"),
    owned("stabby::result::OkGuard<'static, T, E>", "T", "E"),
    owned("stabby::result::ErrGuard<'static, T, E>", "T", "E"),
    owned("abi::alloc::single_or_vec::SingleOrVec<T, A>", "T", "A"),
    owned("abi::alloc::single_or_vec::SliceGuardMut<'static, T, A>", "T", "A"),
    owned("abi::alloc::single_or_vec::IterMut<'static, T, A>", "T", "A"),
    owned("stabby::tuple::Tuple2<T, E>", "T", "E"),
    owned("stabby::vec::Vec<stabby::result::Result<T, E>>", "T", "E"),
    owned("crate::UserEnum<T, E>", "T", "E"),
    owned("crate::UserStruct<T, E>", "T", "E"),
    ("stabby::slice::Slice<'static, T>", Y("T"), Y("T"), "a shared borrow of T"),
    owned("stabby::slice::SliceMut<'static, T>", "T"),
    ("stabby::str::Str<'static>", K(1), K(1), "text"),
    ("stabby::str::StrMut<'static>", K(1), K(1), "text"),
    ("stabby::result::Result<&'static T, E>", lambda e: e["T"][1] and e["E"][0], Y("T", "E"), "a shared borrow of T"),
    ("stabby::option::Option<&'static T>", Y("T"), Y("T"), "a shared borrow of T"),
    owned("stabby::option::Option<&'static mut T>", "T"),
    ("abi::as_mut::RefAs<'static, T, T>", lambda e: e["T"][0] and e["T"][1], Y("T"), "a view of a borrowed T"),
    owned("abi::as_mut::MutAs<'static, T, T>", "T"),
    owned("abi::StableLike<T, ()>", "T"),
    ("abi::checked_import::CheckedImport<T>", S("T"), SY("T"), "a lazily initialised T"),
    owned("abi::checked_import::CanariedImport<T>", "T"),
    owned("stabby::libloading::Symbol<'static, T>", "T"),
    ("abi::alloc::AllocPtr<T, A>", K(0), K(0), "a raw pointer"),
    ("abi::alloc::AllocSlice<T, A>", K(0), K(0), "raw pointers"),
    ("stabby::time::AtomicDuration", K(1), K(1), "an atomic"),
]
VTS = [
    ("V0", 0, 0), ("VtSend<V0>", 1, 0), ("VtSync<V0>", 0, 1),
    ("VtSync<VtSend<V0>>", 1, 1), ("VtSend<VtSync<V0>>", 1, 1),
    ("VTable<(), V0>", 0, 0),
    ("VTable<(), VtSend<V0>>", 1, 0), ("VTable<(), VtSync<V0>>", 0, 1),
    ("VTable<(), VtSync<VtSend<V0>>>", 1, 1), ("VTable<(), VtSend<VtSync<V0>>>", 1, 1),
    ("VtSend<VTable<(), VtSync<V0>>>", 1, 1), ("VtSync<VTable<(), VtSend<V0>>>", 1, 1),
    ("VtSync<VTable<(), V0>>", 0, 1), ("VtSend<VTable<(), V0>>", 1, 0),
]


def dyns():
    for vt, s, y in VTS:
        yield ("stabby::DynRef<'static, %s>" % vt, K(y), K(y), "a shared borrow of an object")
        yield ("stabby::Dyn<'static, &'static mut (), %s>" % vt, K(s), K(y), "an exclusive borrow of an object")
        yield ("stabby::Dyn<'static, stabby::boxed::Box<(), A>, %s>" % vt,
               (lambda s: lambda e: s and e["A"][0])(s), (lambda y: lambda e: y and e["A"][1])(y), "owns an object")
        b = s and y
        f = (lambda b: lambda e: b and e["A"][0] and e["A"][1])(b)
        yield ("stabby::Dyn<'static, stabby::sync::Arc<(), A>, %s>" % vt, f, f, "shares an object")


MARK = {"B": ("u8", ""), "S": ("Cell<u8>", ""), "Y": ("*const u8", "unsafe impl Sync for {x} {{}}"), "N": ("*const u8", "")}


T2 = "stabby_abi::vtable::IConstConstructor,core::convert::From,stabby_abi::fatptr::IntoSuperTrait"


def pair_rows():
    """(trait index, Self, Arg, must hold exactly if, what)"""
    out = []
    for vt, s, y in VTS:
        for c, ps, py in CLS:
            ok = (ps or not s) and (py or not y)
            what = "an object without %s" % " and ".join([m for m, need, has in (("Send", s, ps), ("Sync", y, py)) if need and not has])
            out.append((0, vt, "T" + c, ok, "the vtable is built for " + what))
            out.append((1, "stabby::Dyn<'static, stabby::boxed::Box<()>, %s>" % vt, "stabby::boxed::Box<T%s>" % c, ok, "the object is made from " + what))
            out.append((1, "stabby::DynRef<'static, %s>" % vt, "&'static T" + c, ok, "the object is made from " + what))
    for c, ps, py in CLS:
        out.append((1, "stabby::future::StableWaker<'static, A%s>" % c, "&'static core::task::Waker", bool(ps and py),
                    "the wakers cloned from it own the allocator"))
    for vf, sf, yf in VTS:
        for vt, st, yt in VTS:
            if (st and not sf) or (yt and not yf):
                for fmt in ("stabby::Dyn<'static, stabby::boxed::Box<()>, %s>", "stabby::DynRef<'static, %s>"):
                    out.append((2, fmt % vf, fmt % vt, False, "an upcast adds markers"))
    return out


def source(rows):
    out = [HEAD]
    for c, _, _ in CLS:
        m, imp = MARK[c]
        out.append(PARAM.format(c=c, m=m, imp=imp.format(x="T" + c), impa=imp.format(x="A" + c)))
    out.append("""
#[stabby::stabby] pub enum UserEnum<T, E> { Fst(T), Snd(E), Third }
#[stabby::stabby] pub struct UserStruct<T, E> { a: T, b: E }
pub type V0 = VTable<(), VtDrop>;
""")
    out += ["pub type Q_%d = %s;" % (i, x[1]) for i, x in enumerate(rows)]
    out += ["pub type P_%d_%d = (%s, %s);" % (r[0], i, r[1], r[2]) for i, r in enumerate(pair_rows())]
    return "\n".join(out) + "\n"


CARGO = """[package]
name = "witness-markers"
version = "0.0.0"
edition = "2021"
publish = false
[lib]
name = "witness_markers"
path = "lib.rs"
[workspace]
[dependencies]
stabby = { path = "%s/stabby", features = ["libloading"] }
"""


def subst(expr, env):
    import re
    return re.sub(r"(?<![A-Za-z0-9_:])([TEA])(?![A-Za-z0-9_:])",
                  lambda m: ("A" if m.group(1) == "A" else "T") + env[m.group(1)], expr)


def expand():
    import re
    rows = []
    for expr, s, y, role in list(ROWS) + list(dyns()):
        ps = sorted(set(re.findall(r"(?<![A-Za-z0-9_:])([TEA])(?![A-Za-z0-9_:])", expr)))
        for combo in itertools.product(CLS, repeat=len(ps)):
            env = {p: c[0] for p, c in zip(ps, combo)}
            val = {p: (c[1], c[2]) for p, c in zip(ps, combo)}
            rows.append((expr, subst(expr, env), bool(s(val)), bool(y(val)), role,
                         ", ".join("%s: %s%s" % (p, "Send" if c[1] else "!Send", " + Sync" if c[2] else " + !Sync") for p, c in zip(ps, combo))))
    return rows


def gen():
    rows = expand()
    d = os.path.join(C.BUILD, "gen", "markers")
    os.makedirs(d, exist_ok=True)
    C.write_if_changed(os.path.join(d, "lib.rs"), source(rows))
    C.write_if_changed(os.path.join(d, "Cargo.toml"), CARGO % C.REPO)
    lock = os.path.join(C.REPO, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(d, "Cargo.lock")):
        import shutil
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    return d, rows


TR = "core::marker::Send,core::marker::Sync"


def warm():
    d, _ = gen()
    C.run_driver(d, ["witness_markers"], "queries", extra={"VERIF_TRAITS": TR, "VERIF_TRAITS2": T2}, target="markers")


def check():
    rep = C.Report("C10", "other", "the trait solver's answer to `X: Send` and `X: Sync` for every public type of the library under every combination of thread-safety of its parameters equals what its role (owns / shares / borrows) permits")
    d, rows = gen()
    out, _ = C.run_driver(d, ["witness_markers"], "queries", extra={"VERIF_TRAITS": TR, "VERIF_TRAITS2": T2}, target="markers")
    q = out["witness_markers.queries.json"]
    if len(q["found"]) != 2:
        raise C.ToolError("marker traits not found")
    got = {r["name"]: r for r in q["rows"]}
    for i, (expr, text, s, y, role, combo) in enumerate(rows):
        r = got.get("Q_%d" % i)
        if r is None or "error" in r:
            rep.violation("undecided|" + text, "%s is not a well-formed type any more" % text)
            continue
        tr = {k.rsplit("::", 1)[1]: v for k, v in r["traits"]}
        for name, want in (("Send", s), ("Sync", y)):
            rep.count(name)
            if tr[name] == 2:
                rep.violation("undecided|%s|%s" % (name, text), "%s: %s is ambiguous" % (text, name))
            elif bool(tr[name]) and not want:
                rep.violation("%s|%s|%s" % (name, expr, combo),
                              "%s implements %s where %s, although it is %s" % (expr, name, combo or "-", role))
            elif want and not tr[name]:
                rep.violation("lost|%s|%s|%s" % (name, expr, combo),
                              "%s does not implement %s where %s, although it is %s" % (expr, name, combo or "-", role))
        if i % 97 == 0:
            rep.sample("%s: Send=%s Sync=%s" % (text, tr["Send"], tr["Sync"]))
    for i, (t, a, b, ok, what) in enumerate(pair_rows()):
        r = got.get("P_%d_%d" % (t, i))
        if r is None or "error" in r:
            raise C.ToolError("cannot ask for %s: %s" % (a, r))
        tn = T2.split(",")[t].rsplit("::", 1)[1]
        rep.count(tn)
        if bool(r["holds"]) != ok:
            rep.violation("%s|%s|%s" % (tn, a, b), "%s: %s<%s> %s" % (a, tn, b, "holds although " + what if r["holds"] else "does not hold"))
    rep.coverage["types"] = len(ROWS) + 4 * len(VTS)
    rep.assumptions = ["the roles in the table of lib/p_c10.py; a public type added later is not in it"]
    rep.floor("Send", 500)
    return rep
