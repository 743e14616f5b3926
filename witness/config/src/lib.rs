//! Types whose layouts, reports and identifiers are computed under several configurations of the library
//! and compared. Nothing here runs.
#![no_std]
#![recursion_limit = "2048"]
#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals, deprecated)]
/// arguments tried for every type parameter of every `impl IStable`
pub mod pool {
    pub type A8 = u8;
    pub type Al = crate::user::MyAlloc;
    pub type Nz8 = core::num::NonZeroU8;
    pub type Unit = ();
    pub type Bo = bool;
    pub type Re = &'static u8;
    pub type U64 = u64;
    pub type T2 = stabby::tuple::Tuple2<u8, u16>;
    pub type Ve = stabby::vec::Vec<u8, crate::user::MyAlloc>;
    pub type FnP = extern "C" fn(u8) -> u32;
    pub type Usr = crate::user::Plain;
    pub type Vt = stabby::vtable!(crate::traits::Tr);
    pub type Sum = stabby::result::Result<u8, core::num::NonZeroU8>;
}
pub mod pool_num {
    pub type U1 = stabby::abi::typenum2::U1;
    pub type U4 = stabby::abi::typenum2::U4;
}
pub mod pool_pair {}
pub mod traits {
    #[stabby::stabby]
    pub trait Tr {
        extern "C" fn a(&self) -> u8;
        extern "C" fn b(&mut self, x: u32) -> u32;
    }
    #[stabby::stabby(checked)]
    pub trait Checked<T: 'static> {
        extern "C" fn a(&self, y: T) -> u8;
        extern "C" fn c<'a>(&'a self, y: &'a T) -> stabby::option::Option<&'a u8>;
    }
}
pub mod user {
    use stabby::tuple::*;
    use core::num::*;
    #[stabby::stabby]
    #[derive(Clone, Copy)]
    pub struct MyAlloc;
    impl stabby::alloc::IAlloc for MyAlloc {
        fn alloc(&mut self, _: stabby::alloc::Layout) -> *mut () { core::ptr::null_mut() }
        unsafe fn free(&mut self, _: *mut ()) {}
    }
    #[stabby::stabby]
    pub struct Plain { pub first: u8, pub second: u8, pub third: NonZeroU8 }
    #[stabby::stabby(no_opt)]
    pub struct Mixed { pub z: u8, pub a: u64, pub m: &'static u8, pub b: extern "C" fn(u8) -> u32 }
    #[stabby::stabby]
    pub struct Tupled(pub u32, pub u16, pub u8);
    #[stabby::stabby]
    pub struct Unit;
    #[stabby::stabby(version = 3, module = "elsewhere")]
    pub struct Moved { pub x: u8 }
    #[stabby::stabby]
    pub struct Generic<A, B> { pub a: A, pub b: B }
    #[stabby::stabby]
    #[repr(transparent)]
    pub struct Transparent(pub Plain);
    #[stabby::stabby]
    pub struct Recursive { pub next: Option<&'static Plain>, pub n: usize }
    #[stabby::stabby]
    pub union Un { pub a: u8, pub b: u32, pub c: Tuple2<u8, u16> }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum E8 { A, B, C }
    #[stabby::stabby]
    #[repr(i16)]
    pub enum EI16 { A = -1, B = 5 }
    #[stabby::stabby]
    #[repr(C, u8)]
    pub enum EC { A(u8), B, C { x: u8, y: u16 }, D(u8, u32) }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum EF { A(u8), B, C(u32) }
    #[stabby::stabby]
    #[repr(stabby)]
    pub enum ES { A(u8), B, C(u32), D(NonZeroU8), E }
    #[stabby::stabby]
    #[repr(stabby)]
    pub enum EG<T> { A(T), B, C(u8) }
    pub type G1 = Generic<u8, u16>;
    pub type H1 = EG<u8>;
    pub type H2 = EG<u16>;
    pub type B1 = stabby::boxed::Box<Plain, MyAlloc>;
    pub type V1 = stabby::vec::Vec<u64, MyAlloc>;
    pub type V2 = stabby::vec::SingleOrVec<u8, MyAlloc>;
    pub type S1 = stabby::string::String<MyAlloc>;
    pub type A1 = stabby::sync::Arc<u64, MyAlloc>;
    pub type A2 = stabby::sync::ArcSlice<u64, MyAlloc>;
    pub type A3 = stabby::sync::Weak<u64, MyAlloc>;
    pub type D1 = stabby::Dyn<'static, stabby::boxed::Box<(), MyAlloc>, stabby::vtable!(crate::traits::Tr)>;
    pub type D2 = stabby::Dyn<'static, stabby::boxed::Box<(), MyAlloc>, stabby::vtable!(crate::traits::Tr + Send + Sync)>;
    pub type D3 = stabby::DynRef<'static, stabby::vtable!(crate::traits::Checked<u8>)>;
    pub type R1 = stabby::result::Result<u8, u16>;
    pub type R2 = stabby::result::Result<Plain, bool>;
    pub type R3 = stabby::option::Option<bool>;
    pub type R4 = stabby::option::Option<NonZeroU8>;
    pub type R5 = Option<NonZeroU8>;
    pub type F1 = extern "C" fn(Plain, R2) -> R3;
    pub type F2 = unsafe extern "C" fn(&'static u8, u16) -> ();
    pub type Ar = [Plain; 3];
}
