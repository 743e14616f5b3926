//! Declarations whose type reports are compared with each other and with what was declared. Nothing here runs.
#![recursion_limit = "2048"]
#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals, deprecated)]
/// arguments tried for every type parameter of every `impl IStable`
pub mod pool {
    pub type A8 = u8;
    pub type A16 = u16;
    pub type Al = stabby::alloc::DefaultAllocator;
    pub type Nz8 = core::num::NonZeroU8;
    pub type Unit = ();
    pub type I8 = i8;
    pub type Bo = bool;
    pub type F32 = f32;
    pub type Re = &'static u8;
    pub type T2 = stabby::tuple::Tuple2<u8, u16>;
    pub type Bx = stabby::boxed::Box<()>;
    pub type Ve = stabby::vec::Vec<u8>;
    pub type Vt = stabby::vtable!(crate::traits::Tr);
    pub type FnP = extern "C" fn(u8) -> u32;
    pub type Usr = crate::user::Plain;
}
pub mod pool_num {
    pub type U1 = stabby::abi::typenum2::U1;
    pub type U4 = stabby::abi::typenum2::U4;
}
pub mod pool_pair {}
pub mod traits {
    #[stabby::stabby]
    pub trait Tr {
        extern "C" fn a(&self) -> u8;
        extern "C" fn b(&mut self, x: u32) -> u32;
    }
}
/// declarations of every shape, compared with what their reports say
pub mod user {
    use stabby::tuple::*;
    use core::num::*;
    #[stabby::stabby]
    pub struct Plain { pub first: u8, pub second: u8, pub third: NonZeroU8 }
    #[stabby::stabby(no_opt)]
    pub struct Mixed { pub z: u8, pub a: u64, pub m: &'static u8, pub b: extern "C" fn(u8) -> u32 }
    #[stabby::stabby]
    pub struct Tupled(pub u32, pub u16, pub u8);
    #[stabby::stabby]
    pub struct Unit;
    #[stabby::stabby(version = 7)]
    pub struct Versioned { pub x: u8 }
    #[stabby::stabby(version = 3, module = "elsewhere")]
    pub struct Moved { pub x: u8 }
    #[stabby::stabby(module = "elsewhere", version = 4)]
    pub union MovedU { pub x: u8, pub y: u16 }
    #[stabby::stabby(version = 5, module = "elsewhere")]
    #[repr(u8)]
    pub enum MovedE { A, B }
    #[stabby::stabby(version = 6, module = "elsewhere")]
    #[repr(stabby)]
    pub enum MovedS { A(u8), B(u16), C }
    #[stabby::stabby]
    pub struct Generic<A, B> { pub a: A, pub b: B }
    #[stabby::stabby]
    #[repr(transparent)]
    pub struct Transparent(pub Plain);
    #[stabby::stabby]
    pub struct Recursive { pub next: Option<&'static Plain>, pub n: usize }
    #[stabby::stabby]
    pub union Un { pub a: u8, pub b: u32, pub c: Tuple2<u8, u16> }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum E8 { A, B, C }
    #[stabby::stabby]
    #[repr(i16)]
    pub enum EI16 { A = -1, B = 5 }
    #[stabby::stabby]
    #[repr(C, u8)]
    pub enum EC { A(u8), B, C { x: u8, y: u16 }, D(u8, u32) }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum EF { A(u8), B, C(u32) }
    #[stabby::stabby]
    #[repr(stabby)]
    pub enum ES { A(u8), B, C(u32), D(NonZeroU8), E }
    #[stabby::stabby]
    #[repr(stabby)]
    pub enum EG<T> { A(T), B, C(u8) }
    #[stabby::stabby(version = 2)]
    #[repr(stabby)]
    pub enum EG2<S, T> { X(S), Y(T) }
    pub type G1 = Generic<u8, u16>;
    pub type G2 = Generic<u16, u8>;
    pub type H1 = EG<u8>;
    pub type H2 = EG<u16>;
    pub type H3 = EG2<u16, u8>;
    pub type H4 = EG2<u8, u16>;
}
/// types that differ in exactly one respect from another one of the same family
pub mod one {
    pub mod p_00 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: u8, pub y: u8 }
    }
    pub mod p_01 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w", version = 1)] pub struct P { pub x: u8, pub y: u8 }
    }
    pub mod p_02 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w", version = 256)] pub struct P { pub x: u8, pub y: u8 }
    }
    pub mod p_03 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w", version = 65536)] pub struct P { pub x: u8, pub y: u8 }
    }
    pub mod p_04 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w", version = 16777216)] pub struct P { pub x: u8, pub y: u8 }
    }
    pub mod p_05 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "v")] pub struct P { pub x: u8, pub y: u8 }
    }
    pub mod p_06 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct Q { pub x: u8, pub y: u8 }
    }
    pub mod p_07 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub y: u8, pub x: u8 }
    }
    pub mod p_08 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: u8, pub z: u8 }
    }
    pub mod p_09 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub z: u8, pub y: u8 }
    }
    pub mod p_10 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: u8, pub y: i8 }
    }
    pub mod p_11 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: i8, pub y: u8 }
    }
    pub mod p_12 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: u8 }
    }
    pub mod p_13 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub y: u8 }
    }
    pub mod p_14 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: u8, pub y: u8, pub z: u8 }
    }
    pub mod p_15 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P {}
    }
    pub mod p_16 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P (pub u8, pub u8);
    }
    pub mod p_17 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P (pub u8, pub i8);
    }
    pub mod p_18 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P (pub u8);
    }
    pub mod p_19 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: &'static u8, pub y: u8 }
    }
    pub mod p_20 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: &'static mut u8, pub y: u8 }
    }
    pub mod p_21 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: *const u8, pub y: u8 }
    }
    pub mod p_22 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: *mut u8, pub y: u8 }
    }
    pub mod p_23 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: core::ptr::NonNull<u8>, pub y: u8 }
    }
    pub mod p_24 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: &'static u16, pub y: u8 }
    }
    pub mod p_25 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: usize, pub y: u8 }
    }
    pub mod p_26 {
        use stabby::tuple::*;
        #[stabby::stabby(no_opt, module = "w")] pub struct P { pub x: u64, pub y: u8 }
    }
    pub mod p_27 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] pub union P { pub x: u8, pub y: u8 }
    }
    pub mod p_28 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] pub union P { pub y: u8, pub x: u8 }
    }
    pub mod p_29 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] pub union P { pub x: u8, pub y: i8 }
    }
    pub mod p_30 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] pub union P { pub x: u8 }
    }
    pub mod p_31 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w", version = 1)] pub union P { pub x: u8, pub y: u8 }
    }
    pub mod e_32 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { A, B }
    }
    pub mod e_33 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(i8)] pub enum E { A, B }
    }
    pub mod e_34 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u16)] pub enum E { A, B }
    }
    pub mod e_35 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u32)] pub enum E { A, B }
    }
    pub mod e_36 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u64)] pub enum E { A, B }
    }
    pub mod e_37 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(usize)] pub enum E { A, B }
    }
    pub mod e_38 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(isize)] pub enum E { A, B }
    }
    pub mod e_39 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(i16)] pub enum E { A, B }
    }
    pub mod e_40 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(i32)] pub enum E { A, B }
    }
    pub mod e_41 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(i64)] pub enum E { A, B }
    }
    pub mod e_42 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { A }
    }
    pub mod e_43 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { B, A }
    }
    pub mod e_44 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { A, C }
    }
    pub mod e_45 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { A, B, C }
    }
    pub mod e_46 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w", version = 1)] #[repr(u8)] pub enum E { A, B }
    }
    pub mod e_47 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "x")] #[repr(u8)] pub enum E { A, B }
    }
    pub mod e_48 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum F { A, B }
    }
    pub mod f_49 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { A(u8), B(u16) }
    }
    pub mod f_50 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { A(u8), B(u8) }
    }
    pub mod f_51 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { A(u8), B }
    }
    pub mod f_52 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { A(u8), C(u16) }
    }
    pub mod f_53 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { B(u16), A(u8) }
    }
    pub mod f_54 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { A(u8), B(u16), C(u8) }
    }
    pub mod f_55 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u8)] pub enum E { A(i8), B(u16) }
    }
    pub mod f_56 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { A(u8), B(u16) }
    }
    pub mod f_57 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { A(u8), B(u8) }
    }
    pub mod f_58 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { A(u8), B }
    }
    pub mod f_59 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { A(u8), C(u16) }
    }
    pub mod f_60 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { B(u16), A(u8) }
    }
    pub mod f_61 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { A(u8), B(u16), C(u8) }
    }
    pub mod f_62 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { A(i8), B(u16) }
    }
    pub mod f_63 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u16)] pub enum E { A(u8), B(u16) }
    }
    pub mod f_64 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u16)] pub enum E { A(u8), B(u8) }
    }
    pub mod f_65 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u16)] pub enum E { A(u8), B }
    }
    pub mod f_66 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u16)] pub enum E { A(u8), C(u16) }
    }
    pub mod f_67 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u16)] pub enum E { B(u16), A(u8) }
    }
    pub mod f_68 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u16)] pub enum E { A(u8), B(u16), C(u8) }
    }
    pub mod f_69 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(u16)] pub enum E { A(i8), B(u16) }
    }
    pub mod f_70 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u16)] pub enum E { A(u8), B(u16) }
    }
    pub mod f_71 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u16)] pub enum E { A(u8), B(u8) }
    }
    pub mod f_72 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u16)] pub enum E { A(u8), B }
    }
    pub mod f_73 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u16)] pub enum E { A(u8), C(u16) }
    }
    pub mod f_74 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u16)] pub enum E { B(u16), A(u8) }
    }
    pub mod f_75 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u16)] pub enum E { A(u8), B(u16), C(u8) }
    }
    pub mod f_76 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u16)] pub enum E { A(i8), B(u16) }
    }
    pub mod f_77 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(stabby)] pub enum E { A(u8), B(u16) }
    }
    pub mod f_78 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(stabby)] pub enum E { A(u8), B(u8) }
    }
    pub mod f_79 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(stabby)] pub enum E { A(u8), B }
    }
    pub mod f_80 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(stabby)] pub enum E { A(u8), C(u16) }
    }
    pub mod f_81 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(stabby)] pub enum E { B(u16), A(u8) }
    }
    pub mod f_82 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(stabby)] pub enum E { A(u8), B(u16), C(u8) }
    }
    pub mod f_83 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(stabby)] pub enum E { A(i8), B(u16) }
    }
    pub mod f_84 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { A { x: u8, y: u8 }, B(u16) }
    }
    pub mod f_85 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { A { x: u8, z: u8 }, B(u16) }
    }
    pub mod f_86 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { A { x: u8, y: i8 }, B(u16) }
    }
    pub mod f_87 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w")] #[repr(C, u8)] pub enum E { A(u8, u8), B(u16) }
    }
    pub mod f_88 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "w", version = 1)] #[repr(stabby)] pub enum E { A(u8), B(u16) }
    }
    pub mod f_89 {
        use stabby::tuple::*;
        #[stabby::stabby(module = "x")] #[repr(stabby)] pub enum E { A(u8), B(u16) }
    }
}
/// enums that differ in the values of their tags
pub mod disc {
    pub mod d0 { #[stabby::stabby(module = "w")] #[repr(u8)] pub enum D { A = 1, B = 2 } }
    pub mod d1 { #[stabby::stabby(module = "w")] #[repr(u8)] pub enum D { A = 2, B = 1 } }
}
/// structures that differ in their alignment
pub mod over {
    pub mod a0 { #[stabby::stabby(no_opt, module = "w")] pub struct A { pub x: u32 } }
    pub mod a1 { #[stabby::stabby(no_opt, module = "w")] #[repr(align(16))] pub struct A { pub x: u32 } }
}
/// reports that read the same when their parts are written one after the other
pub mod run {
    pub mod r0 {
        #[stabby::stabby(module = "w")] pub struct B { pub y: u8 }
        #[stabby::stabby(module = "w")] pub struct A { pub x: B }
    }
    pub mod r1 {
        #[stabby::stabby(module = "w")] pub struct B;
        #[stabby::stabby(module = "w", no_opt)] pub struct A { pub x: B, pub y: u8 }
    }
    pub mod r2 {
        #[stabby::stabby(module = "w")] pub struct AB { pub c: u8 }
        #[stabby::stabby(module = "wA")] pub struct B { pub c: u8 }
    }
    pub mod r3 {
        #[stabby::stabby(module = "w")] pub struct T { pub xs: u8 }
        pub mod in_ { #[stabby::stabby(module = "w")] pub struct Tx { pub s: u8 } }
    }
}
/// traits that differ in one respect
pub mod vt {
    pub mod t0 { #[stabby::stabby] pub trait T { extern "C" fn a(&self) -> u8; extern "C" fn b(&self) -> u8; } }
    pub mod t1 { #[stabby::stabby] pub trait T { extern "C" fn b(&self) -> u8; extern "C" fn a(&self) -> u8; } }
    pub mod t2 { #[stabby::stabby] pub trait T { extern "C" fn a(&self) -> u8; } }
    pub mod t3 { #[stabby::stabby] pub trait T { extern "C" fn a(&self) -> u8; extern "C" fn c(&self) -> u8; } }
    pub mod t4 { #[stabby::stabby] pub trait T { extern "C" fn a(&self) -> u8; extern "C" fn b(&self) -> u8; extern "C" fn c(&self) -> u8; } }
    pub type V0 = stabby::vtable!(t0::T);
    pub type V1 = stabby::vtable!(t1::T);
    pub type V2 = stabby::vtable!(t2::T);
    pub type V3 = stabby::vtable!(t3::T);
    pub type V4 = stabby::vtable!(t4::T);
    pub type V5 = stabby::vtable!(t0::T + Send);
    pub type V6 = stabby::vtable!(t0::T + Send + Sync);
    pub type V7 = stabby::vtable!(t0::T + t2::T);
    pub type V8 = stabby::vtable!(t2::T + t0::T);
    pub type D0 = stabby::Dyn<'static, stabby::boxed::Box<()>, V0>;
    pub type D1 = stabby::Dyn<'static, stabby::boxed::Box<()>, V2>;
    pub type D2 = stabby::Dyn<'static, stabby::sync::Arc<()>, V0>;
    pub type D3 = stabby::Dyn<'static, &'static (), V0>;
    pub type D4 = stabby::Dyn<'static, &'static mut (), V0>;
    pub type D5 = stabby::Dyn<'static, stabby::boxed::Box<()>, V5>;
    pub type R0 = stabby::DynRef<'static, V0>;
    pub type R1 = stabby::DynRef<'static, V2>;
}
/// function pointers
pub mod fns {
    use stabby::tuple::*;
    pub type F0 = extern "C" fn();
    pub type F1 = unsafe extern "C" fn();
    pub type F2 = extern "C-unwind" fn();
    pub type F3 = unsafe extern "C-unwind" fn();
    pub type F4 = extern "C" fn() -> u8;
    pub type F5 = unsafe extern "C" fn() -> u8;
    pub type F6 = extern "C-unwind" fn() -> u8;
    pub type F7 = unsafe extern "C-unwind" fn() -> u8;
    pub type F8 = extern "C" fn(u8) -> u8;
    pub type F9 = unsafe extern "C" fn(u8) -> u8;
    pub type F10 = extern "C-unwind" fn(u8) -> u8;
    pub type F11 = unsafe extern "C-unwind" fn(u8) -> u8;
    pub type F12 = extern "C" fn(u8);
    pub type F13 = unsafe extern "C" fn(u8);
    pub type F14 = extern "C-unwind" fn(u8);
    pub type F15 = unsafe extern "C-unwind" fn(u8);
    pub type F16 = extern "C" fn(u16) -> u8;
    pub type F17 = unsafe extern "C" fn(u16) -> u8;
    pub type F18 = extern "C-unwind" fn(u16) -> u8;
    pub type F19 = unsafe extern "C-unwind" fn(u16) -> u8;
    pub type F20 = extern "C" fn(u8) -> u16;
    pub type F21 = unsafe extern "C" fn(u8) -> u16;
    pub type F22 = extern "C-unwind" fn(u8) -> u16;
    pub type F23 = unsafe extern "C-unwind" fn(u8) -> u16;
    pub type F24 = extern "C" fn(u8, u16) -> u8;
    pub type F25 = unsafe extern "C" fn(u8, u16) -> u8;
    pub type F26 = extern "C-unwind" fn(u8, u16) -> u8;
    pub type F27 = unsafe extern "C-unwind" fn(u8, u16) -> u8;
    pub type F28 = extern "C" fn(u16, u8) -> u8;
    pub type F29 = unsafe extern "C" fn(u16, u8) -> u8;
    pub type F30 = extern "C-unwind" fn(u16, u8) -> u8;
    pub type F31 = unsafe extern "C-unwind" fn(u16, u8) -> u8;
    pub type F32 = extern "C" fn(u8, u8) -> u8;
    pub type F33 = unsafe extern "C" fn(u8, u8) -> u8;
    pub type F34 = extern "C-unwind" fn(u8, u8) -> u8;
    pub type F35 = unsafe extern "C-unwind" fn(u8, u8) -> u8;
    pub type F36 = extern "C" fn(u8, u8, u8) -> u8;
    pub type F37 = unsafe extern "C" fn(u8, u8, u8) -> u8;
    pub type F38 = extern "C-unwind" fn(u8, u8, u8) -> u8;
    pub type F39 = unsafe extern "C-unwind" fn(u8, u8, u8) -> u8;
    pub type F40 = extern "C" fn(u8, u8, u16) -> u8;
    pub type F41 = unsafe extern "C" fn(u8, u8, u16) -> u8;
    pub type F42 = extern "C-unwind" fn(u8, u8, u16) -> u8;
    pub type F43 = unsafe extern "C-unwind" fn(u8, u8, u16) -> u8;
    pub type F44 = extern "C" fn(u8, u16, u8) -> u8;
    pub type F45 = unsafe extern "C" fn(u8, u16, u8) -> u8;
    pub type F46 = extern "C-unwind" fn(u8, u16, u8) -> u8;
    pub type F47 = unsafe extern "C-unwind" fn(u8, u16, u8) -> u8;
    pub type F48 = extern "C" fn(u16, u8, u8) -> u8;
    pub type F49 = unsafe extern "C" fn(u16, u8, u8) -> u8;
    pub type F50 = extern "C-unwind" fn(u16, u8, u8) -> u8;
    pub type F51 = unsafe extern "C-unwind" fn(u16, u8, u8) -> u8;
    pub type F52 = extern "C" fn(Tuple2<u8, u8>) -> u8;
    pub type F53 = unsafe extern "C" fn(Tuple2<u8, u8>) -> u8;
    pub type F54 = extern "C-unwind" fn(Tuple2<u8, u8>) -> u8;
    pub type F55 = unsafe extern "C-unwind" fn(Tuple2<u8, u8>) -> u8;
    pub type F56 = extern "C" fn(Tuple2<u8, u8>, u8) -> u8;
    pub type F57 = unsafe extern "C" fn(Tuple2<u8, u8>, u8) -> u8;
    pub type F58 = extern "C-unwind" fn(Tuple2<u8, u8>, u8) -> u8;
    pub type F59 = unsafe extern "C-unwind" fn(Tuple2<u8, u8>, u8) -> u8;
    pub type N0 = extern "C" fn(extern "C" fn(u8) -> u8) -> u8;
    pub type N1 = extern "C" fn(extern "C" fn(u8), u8) -> u8;
    pub type N2 = extern "C" fn(u8) -> extern "C" fn(u8) -> u8;
}
/// instances the pools don't reach
pub mod more {
    use stabby::collections::arc_btree::*;
    pub type M0 = ArcBTreeMap<u8, u16>;
    pub type M1 = ArcBTreeMap<u16, u8>;
    pub type M2 = ArcBTreeMap<u8, u8>;
    pub type S0 = ArcBTreeSet<u8>;
    pub type S1 = ArcBTreeSet<u16>;
    pub type S2 = ArcBTreeSet<u8, stabby::alloc::DefaultAllocator, true>;
    pub type S3 = ArcBTreeSet<u8, stabby::alloc::DefaultAllocator, false, 7>;
    pub type A0 = AtomicArcBTreeSet<u8, false, 5>;
    pub type A1 = AtomicArcBTreeSet<u16, false, 5>;
    pub type C0 = stabby::abi::checked_import::CheckedImport<extern "C" fn(u8) -> u32>;
    pub type C1 = stabby::abi::checked_import::CheckedImport<extern "C" fn(u8) -> u16>;
    #[stabby::stabby]
    pub struct Fut(core::num::NonZeroU32);
    impl core::future::Future for Fut {
        type Output = u16;
        fn poll(self: core::pin::Pin<&mut Self>, _: &mut core::task::Context<'_>) -> core::task::Poll<u16> {
            core::task::Poll::Ready(1)
        }
    }
    pub type Mr = stabby::future::MaybeResolved<u16, Fut>;
}
