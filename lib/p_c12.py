import os
import re
import common as C
import facts
import programs as P

# The explicit promise that a type behaves like another one (unsafe to make about layouts, C25).
PROMISED = {"core::marker::PhantomData": None, "stabby_abi::StableLike": 0, "stabby_abi::stable_impls::HasExactlyOneNiche": 1}


def uses(F, path, name, seen):
    """Whether the parameter is part of the type's representation."""
    a = F.adt[path]
    if (path, name) in seen:
        return False
    seen = seen | {(path, name)}
    return any(occurs(F, a["T"], f["t"], name, seen) for v in a["variants"] for f in v["fields"])


def occurs(F, T, i, name, seen):
    n = T[i]
    k = n["k"]
    if k == "param":
        return n["name"] == name
    if k == "adt" and n["p"] in PROMISED:
        skip = PROMISED[n["p"]]
        if skip is None:
            return False
        ty = [a for a in n.get("a", []) if isinstance(a, int)]
        return any(occurs(F, T, a, name, seen) for j, a in enumerate(ty) if j != skip)
    if k == "adt" and n["p"] in F.adt:
        d = F.adt[n["p"]]
        own = [d["T"][a] for a in d["T"][d["t"]].get("a", []) if isinstance(a, int)]
        ty = [a for a in n.get("a", []) if isinstance(a, int)]
        if len(own) == len(ty):
            return any(occurs(F, T, a, name, seen) and (o["k"] != "param" or uses(F, n["p"], o["name"], seen)) for a, o in zip(ty, own))
    sub = [a for a in n.get("a", []) if isinstance(a, int)] + ([n["t"]] if isinstance(n.get("t"), int) else [])
    if k in ("alias", "fnptr", "dyn", "other"):
        return re.search(r"\b%s\b" % re.escape(name), n["s"]) is not None
    return any(occurs(F, T, a, name, seen) for a in sub)


def impls(rep, F):
    """Every impl of IStable refuses type arguments that are not stable, unless nothing of their representation is in the type."""
    for i in F.impls:
        if not (i.get("trait") or "").endswith("::IStable") or "param_impls" not in i:
            continue
        T = i["T"]
        st = T[i["self"]]
        rep.count("impls of IStable")
        for name, bound in i["param_impls"]:
            rep.count("type parameters")
            if bound:
                continue
            if st["k"] == "adt":
                if st["p"] in PROMISED:
                    continue
                a = F.adt.get(st["p"])
                if a is not None:
                    own = [a["T"][x] for x in a["T"][a["t"]].get("a", []) if isinstance(x, int)]
                    args = [T[x] for x in st.get("a", []) if isinstance(x, int)]
                    mine = [o["name"] for o, x in zip(own, args) if o["k"] == "param" and x["k"] == "param" and x["name"] == name]
                    if mine and not any(uses(F, st["p"], m, frozenset()) for m in mine):
                        continue
            rep.violation("impl|%s|%s" % (re.sub(r"<.*", "", st["s"]), name),
                          "%s is declared stable whatever its parameter %s is (%s): nothing requires %s itself to be stable" % (st["s"], name, i["loc"], name))


COMMON = """struct RustRepr(u8);
#[stabby::stabby] pub struct Generic<T>(T);
fn is<T: stabby::IStable>() {}
trait Ass { type T; }
impl Ass for u8 { type T = char; }
"""
# one type per form a type can be written in, all of them without a stable representation
UNSTABLE = {"path": "char", "local": "RustRepr", "generic": "std::vec::Vec<u8>", "nullable": "core::option::Option<u8>", "tuple": "(u8, u16)", "one-tuple": "(u8,)", "nested": "Generic<(u8, u16)>",
            "in-sum": "stabby::option::Option<(u8, u16)>", "array": "[RustRepr; 2]", "array-of-tuples": "[(u8, u16); 2]", "paren": "(char)", "ref-str": "&'static str", "ref-slice": "&'static [u8]",
            "ref": "&'static RustRepr", "ref-tuple": "&'static (u8, u16)", "mut-ref": "&'static mut RustRepr", "ptr": "*const (u8, u16)", "ptr-slice": "*mut [u8]", "fn": "fn(u8)",
            "fn-arg": "extern \"C\" fn((u8, u16))", "fn-ret": "extern \"C\" fn() -> RustRepr", "dyn": "&'static dyn Fn()", "qualified": "<u8 as Ass>::T"}
STABLE = {"path": "u8", "generic": "stabby::vec::Vec<u8>", "array": "[u8; 2]"}
PLACES = {
    "fn-arg": '#[stabby::stabby] pub extern "C" fn f(a: X) { loop {} }',
    "fn-middle": '#[stabby::stabby] pub extern "C" fn f(z: u8, a: X, y: u8) { loop {} }',
    "fn-ret": '#[stabby::stabby] pub extern "C" fn f() -> X { loop {} }',
    "fn-no-abi-ret": '#[stabby::stabby] pub unsafe fn f(a: u8) -> X { loop {} }',
    "method-arg": '#[stabby::stabby] pub struct S(u8); impl S { #[stabby::stabby] pub extern "C" fn f(&self, a: X) { loop {} } }',
    "method-ret": '#[stabby::stabby] pub struct S(u8); impl S { #[stabby::stabby] pub extern "C" fn f(self, a: u8) -> X { loop {} } }',
    "struct": "#[stabby::stabby(no_opt)] pub struct S { a: u64, b: X } fn chk() { is::<S>() }",
    "struct-first": "#[stabby::stabby(no_opt)] pub struct S { b: X, a: u64 } fn chk() { is::<S>() }",
    "tuple-struct": "#[stabby::stabby(no_opt)] pub struct S(X); fn chk() { is::<S>() }",
    "param": "#[stabby::stabby(no_opt)] pub struct S<T> { a: u8, t: T } fn chk() { is::<S<X>>() }",
    "union": "#[stabby::stabby] pub union S { a: core::mem::ManuallyDrop<X>, b: u8 } fn chk() { is::<S>() }",
    "enum-u8": "#[stabby::stabby] #[repr(u8)] pub enum S { A, B(X) } fn chk() { is::<S>() }",
    "enum-C": "#[stabby::stabby] #[repr(C)] pub enum S { A(X), B(u8) } fn chk() { is::<S>() }",
    "enum-stabby": "#[stabby::stabby] #[repr(stabby)] pub enum S { A(u64), B(X) } fn chk() { is::<S>() }",
    "trait-arg": '#[stabby::stabby(checked)] pub trait T { extern "C" fn g(&self); extern "C" fn f(&self, z: u8, a: X); } fn chk() { is::<stabby::DynRef<\'static, stabby::vtable!(T)>>() }',
    "trait-ret": '#[stabby::stabby(checked)] pub trait T { extern "C" fn f(&mut self) -> X; extern "C" fn g(&self); } fn chk() { is::<stabby::dynptr!(Box<dyn T>)>() }',
    "export-arg": '#[stabby::export] pub extern "C" fn f(z: u8, a: X) -> u8 { loop {} }',
    "export-ret": '#[stabby::export] pub extern "C" fn f(z: u8) -> X { loop {} }',
    "import-arg": '#[stabby::import(name = "l")] extern "C" { pub fn g(); pub fn f(z: u8, a: X) -> u8; }',
    "import-ret": '#[stabby::import(name = "l")] extern "C" { pub fn f() -> X; }',
    "loaded": 'use stabby::libloading::StabbyLibrary; fn f(l: &libloading::Library) { unsafe { let _ = l.get_stabbied::<extern "C" fn(u8, X) -> u8>(b"f"); } }',
    "loaded-ret": 'use stabby::libloading::StabbyLibrary; fn f(l: &libloading::Library) { unsafe { let _ = l.get_stabbied::<extern "C" fn() -> X>(b"f"); } }',
}
# in-crate types only resolve where the macro's output sees them; imports move signatures into a module of their own
HIDDEN = ("import-arg", "import-ret")


def forms():
    """every form of type at every place of the boundary"""
    out = []
    for place, text in PLACES.items():
        fill = lambda x: re.sub(r"\bX\b", lambda m: x, text) + "\nfn main() {}\n"
        good = {k: x for k, x in STABLE.items() if not (place == "enum-stabby" and k == "array")}
        out.append({"id": "form-" + place, "common": COMMON, "good": [fill(x) for x in good.values()],
                    "bad": [fill(x) for k, x in UNSTABLE.items() if not (place in HIDDEN and ("RustRepr" in x or "Generic" in x or "Ass" in x))]})
    return out


def check():
    rep = C.Report("C12", "other", "every program of a table that passes something unstable through an annotated item, or annotates an item without a fixed representation or calling convention, is rejected by the compiler, and its valid twins accepted; every impl of IStable refuses unstable type arguments")
    progs = P.parse(os.path.join(C.ROOT, "witness", "programs", "boundary.txt")) + forms()
    P.judge(rep, progs, P.run(progs), "a declaration that lets something unstable through the ABI boundary")
    impls(rep, facts.load())
    rep.floor("rejected programs", 400)
    rep.floor("accepted programs", 40)
    rep.floor("type parameters", 60)
    return rep
