A = "stabby-abi/src/"
M = "stabby-macros/src/"
REJ = "/verif/tools/demo_reject.sh"
SEEDS = [
dict(id="c06-shallow-fields", property="C06",
  edits=[(A+"report.rs", ".all(|s, o| s.name == o.name && s.ty.is_compatible(o.ty))" if False else ".all(|(s, o)| s.name == o.name && s.ty.is_compatible(o.ty))",
          ".all(|(s, o)| s.name == o.name && s.ty.name == o.ty.name && s.ty.module == o.ty.module)")],
  needs="two types whose fields have types of the same name, module but different contents (a nested difference)",
  breaks="types that differ two levels down are found compatible",
  demo='''
use stabby_abi::IStable;
mod a { #[stabby::stabby(module = "m")] pub struct Inner { pub v: u32 } #[stabby::stabby(module = "m")] pub struct Outer { pub i: Inner } }
mod b { #[stabby::stabby(module = "m")] pub struct Inner { pub v: f32 } #[stabby::stabby(module = "m")] pub struct Outer { pub i: Inner } }
fn main() {
    assert!(a::Outer::REPORT.is_compatible(a::Outer::REPORT));
    assert!(!a::Inner::REPORT.is_compatible(b::Inner::REPORT));
    assert!(!a::Outer::REPORT.is_compatible(b::Outer::REPORT));
}
'''),
dict(id="c07-state-bits", property="C07",
  edits=[(A+"checked_import.rs", "const INVALIDATED: u8 = 2;\nconst LOCKED: u8 = 3;", "const LOCKED: u8 = 2;\nconst INVALIDATED: u8 = 3;"),
         (A+"checked_import.rs", "                VALIDATED => return Ok(unsafe { (*self.result.get()).assume_init_ref() }),\n                INVALIDATED =>", "                s if s & VALIDATED != 0 => return Ok(unsafe { (*self.result.get()).assume_init_ref() }),\n                INVALIDATED =>")],
  needs="using the import again after a first use was refused",
  breaks="the second use of a refused import hands out an uninitialised symbol",
  demo='''
use stabby_abi::{checked_import::CheckedImport, report::TypeReport, IStable};
unsafe extern "C" fn refuse(_: &TypeReport) -> Option<usize> { None }
unsafe extern "C" fn accept(_: &TypeReport) -> Option<usize> { Some(5) }
unsafe extern "C" fn report() -> &'static TypeReport { u32::REPORT }
fn main() {
    let no = CheckedImport::<usize>::new(refuse, report, usize::REPORT);
    let yes = CheckedImport::<usize>::new(accept, report, usize::REPORT);
    for _ in 0..3 {
        let e = no.as_ref().map(|_| ()).expect_err("a refused import was handed out");
        assert!(core::ptr::eq(e.local, usize::REPORT) && core::ptr::eq(e.loaded, u32::REPORT));
        assert_eq!(yes.as_ref().unwrap(), &5);
    }
    core::mem::forget(no);
}
'''),
dict(id="c07-gate-shallow", property="C07",
  edits=[(M+"functions.rs", "<#signature as #st::IStable>::REPORT.is_compatible(report).then_some(#ident)",
          "{ let own = <#signature as #st::IStable>::REPORT; (core::ptr::eq(own, report) || (own.name == report.name && own.module == report.module && own.tyty == report.tyty)).then_some(#ident) }")],
  needs="an importer whose function type differs from the exporter's only in its arguments or result",
  breaks="the exporter hands its function out to importers that use another signature",
  demo='''
use stabby_abi::{IStable, report::TypeReport};
mod x { #[stabby::export] pub extern "C" fn f(a: u32) -> u32 { a } }
extern "C" { fn f_stabbied_v3(r: &TypeReport) -> Option<extern "C" fn(u32) -> u32>; }
fn main() {
    unsafe {
        assert!(f_stabbied_v3(<extern "C" fn(u32) -> u32>::REPORT).is_some());
        assert!(f_stabbied_v3(<extern "C" fn(&'static u64) -> u32>::REPORT).is_none());
        assert!(f_stabbied_v3(<extern "C" fn(u32) -> f32>::REPORT).is_none());
        assert!(f_stabbied_v3(<extern "C" fn(u32, u32) -> u32>::REPORT).is_none());
    }
}
'''),
dict(id="c07-one-canary", property="C07",
  edits=[("stabby/src/libloading.rs", """            if let Err(e) = self.get::<extern "C" fn()>(&[symbol, suffix.as_bytes()].concat()) {
                return Err(""", """            if let Err(e) = self.get::<extern "C" fn()>(&[symbol, suffix.as_bytes()].concat()) {
                if suffix == canaries::CANARY_NUM_JOBS {
                    // Differing parallelism doesn't affect the ABI.
                    break;
                }
                return Err(""")],
  needs="a library whose num_jobs canary is the only one missing",
  breaks="a canaried symbol is handed out although a canary that get_canaried documents as checked is absent",
  demo_sh="/verif/tools/seeds/canary_demo.sh", files={"main.rs": '''
use stabby::libloading::StabbyLibrary;
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    unsafe {
        let all = libloading::Library::new(format!("{dir}/all.so")).unwrap();
        assert!(all.get_canaried::<extern "C" fn(u32) -> u32>(b"f").is_ok());
        let mut n = 0;
        for f in std::fs::read_dir(&dir).unwrap() {
            let p = f.unwrap().path();
            let s = p.file_name().unwrap().to_str().unwrap().to_string();
            if s.starts_with("no_") && s.ends_with(".so") {
                let lib = libloading::Library::new(&p).unwrap();
                assert!(lib.get_canaried::<extern "C" fn(u32) -> u32>(b"f").is_err(), "{s}");
                n += 1;
            }
        }
        assert_eq!(n, 5);
    }
}
'''}),
dict(id="c08-last-canary", property="C08",
  edits=[(M+"functions.rs", "            if candidate > self.spec {", "            if candidate >= self.spec {")],
  needs="a canary selection of which the highest canary is a single bit (e.g. only `rustc`)",
  breaks="an import asking for one canary links against libraries that don't have it",
  demo_sh="/verif/tools/seeds/link_demo.sh", files={"main.rs": '''
#[stabby::import(canaries = "target", name = "f")]
extern "C" { pub fn f(a: u32) -> u32; }
fn main() { assert_eq!(unsafe { f(4) }, 5); }
'''}),
dict(id="c08-report-name", property="C08",
  edits=[("stabby/src/libloading.rs", 'const REPORT_SUFFIX: &[u8] = b"_stabbied_v3_report";', 'const REPORT_SUFFIX: &[u8] = b"_stabbied_report_v3";')],
  needs="dynamically loading a function under a type that isn't its own",
  breaks="the loader looks up a report under a name no exporter emits, so a mismatch is reported as a missing symbol",
  demo_sh="/verif/tools/seeds/load_demo.sh", files={"main.rs": '''
use stabby::libloading::StabbyLibrary;
fn main() {
    unsafe {
        let lib = libloading::Library::new(std::env::args().nth(1).unwrap()).unwrap();
        assert_eq!(lib.get_stabbied::<extern "C" fn(u32) -> u32>(b"g").unwrap()(4), 5);
        let e = lib.get_stabbied::<extern "C" fn(u8) -> u8>(b"g").map(|_| ()).unwrap_err().to_string();
        assert!(e.contains("mismatch"), "{e}");
    }
}
'''}),
dict(id="c10-slice-of-cells", property="C10",
  edits=[(A+"slice.rs", "unsafe impl<'a, T: 'a> Send for Slice<'a, T> where &'a T: Send {}", "unsafe impl<'a, T: 'a> Send for Slice<'a, T> where T: Send {}")],
  needs="a shared slice of elements that are Send but not Sync",
  breaks="a shared slice of Cells may be sent to another thread, racing with its owner",
  demo_sh=REJ, files={"good.rs": '''
fn send<T: Send>() {}
fn main() { send::<stabby::slice::Slice<'static, u8>>() }
''', "bad.rs": '''
fn send<T: Send>() {}
fn main() { send::<stabby::slice::Slice<'static, core::cell::Cell<u8>>>() }
'''}),
dict(id="c10-vtsend-sync", property="C10",
  edits=[(A+"vtable/mod.rs", "impl<T: HasSyncVt> HasSyncVt for VtSend<T> {}", "impl<T> HasSyncVt for VtSend<T> {}")],
  needs="a trait object whose trait list has Send but not Sync",
  breaks="a trait object that only promises Send is Sync too, so a Cell inside can be shared between threads",
  demo_sh=REJ, files={"good.rs": '''
#[stabby::stabby(checked)]
pub trait Tr { extern "C" fn m(&self) -> u8; }
fn sync<T: Sync>() {}
fn main() { sync::<stabby::Dyn<'static, stabby::boxed::Box<()>, stabby::vtable!(Tr + Send + Sync)>>() }
''', "bad.rs": '''
#[stabby::stabby(checked)]
pub trait Tr { extern "C" fn m(&self) -> u8; }
fn sync<T: Sync>() {}
fn main() { sync::<stabby::Dyn<'static, stabby::boxed::Box<()>, stabby::vtable!(Tr + Send)>>() }
'''}),
dict(id="c11-dynref-outlives", property="C11",
  edits=[(A+"fatptr.rs", """    pub fn as_ref(&self) -> DynRef<'_, Vt> {
        DynRef {
            ptr: unsafe { self.ptr.as_ref() },""", """    pub fn as_ref(&self) -> DynRef<'a, Vt> {
        DynRef {
            ptr: unsafe { core::mem::transmute::<&(), &'a ()>(self.ptr.as_ref()) },""")],
  needs="keeping the borrowed trait object after the owning one is dropped",
  breaks="a DynRef taken from a Dyn may outlive it and call methods on freed memory",
  demo_sh=REJ, files={"good.rs": '''
fn main() {
    let d: stabby::Dyn<'static, stabby::boxed::Box<()>, stabby::vtable!(Send)> = stabby::boxed::Box::new(5u32).into();
    let r = d.as_ref();
    let _ = &r;
    drop(d);
}
''', "bad.rs": '''
fn main() {
    let d: stabby::Dyn<'static, stabby::boxed::Box<()>, stabby::vtable!(Send)> = stabby::boxed::Box::new(5u32).into();
    let r = d.as_ref();
    drop(d);
    let _ = &r;
}
'''}),
dict(id="c12-async-result", property="C12",
  edits=[(M+"functions.rs", "        stable_asserts.push(assert_stable(&st, ty));\n    }\n    stable_asserts.extend", "        if !matches!(**ty, syn::Type::Tuple(_)) {\n            stable_asserts.push(assert_stable(&st, ty));\n        }\n    }\n    stable_asserts.extend")],
  needs="an annotated function returning a Rust tuple",
  breaks="a function returning a Rust tuple, whose layout is unspecified, is accepted as stable",
  demo_sh=REJ, files={"good.rs": '''
#[stabby::stabby]
#[allow(improper_ctypes_definitions)]
pub extern "C" fn f(a: u8) -> stabby::tuple::Tuple2<u8, u16> { stabby::tuple::Tuple2(a, 1) }
fn main() { f(1); }
''', "bad.rs": '''
#[stabby::stabby]
#[allow(improper_ctypes_definitions)]
pub extern "C" fn f(a: u8) -> (u8, u16) { (a, 1) }
fn main() { f(1); }
'''}),
dict(id="c24-debug-prefix", property="C24",
  edits=[(A+"alloc/mod.rs", "    /// A slot for the allocator.\n    pub alloc:", "    /// Where the block ends, for debugging.\n    #[cfg(debug_assertions)]\n    pub end: core::mem::MaybeUninit<NonNull<()>>,\n    /// A slot for the allocator.\n    pub alloc:"),
         (A+"alloc/mod.rs", "alloc: core::mem::MaybeUninit::uninit(),", "#[cfg(debug_assertions)]\n                    end: core::mem::MaybeUninit::uninit(),\n                    alloc: core::mem::MaybeUninit::uninit(),")],
  needs="a debug and a release build exchanging a boxed value",
  breaks="the prefix of every allocation depends on debug assertions, so blocks can't be freed across builds",
  demo_sh="/verif/tools/seeds/profiles_demo.sh", files={"main.rs": '''
use stabby_abi::{IStable, typenum2::Unsigned, alloc::{AllocPrefix, DefaultAllocator}};
fn main() {
    println!("{} {:?}", core::mem::size_of::<AllocPrefix<DefaultAllocator>>(), core::mem::align_of::<AllocPrefix<DefaultAllocator>>());
}
'''}),
dict(id="c25-arcslice-from-raw", property="C25",
  edits=[(A+"alloc/sync.rs", "    pub const unsafe fn from_raw(this: AllocSlice<T, Alloc>) -> Self {", "    pub const fn from_raw(this: AllocSlice<T, Alloc>) -> Self {")],
  needs="building a shared slice from a copied raw slice in safe code",
  breaks="safe code can duplicate a shared slice without raising its count, and so free it twice",
  demo_sh=REJ, files={"good.rs": '''
use stabby::sync::ArcSlice;
fn main() {
    let a: ArcSlice<u8> = stabby::vec::Vec::from(&[1u8, 2][..]).into();
    let raw = ArcSlice::into_raw(a);
    let _b = unsafe { ArcSlice::from_raw(raw) };
}
''', "bad.rs": '''
use stabby::sync::ArcSlice;
fn main() {
    let a: ArcSlice<u8> = stabby::vec::Vec::from(&[1u8, 2][..]).into();
    let raw = ArcSlice::into_raw(a);
    let _b = ArcSlice::from_raw(raw);
}
'''}),
]
