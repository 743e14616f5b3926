//! Instances of the library's types handed to the layout pass of the driver. Nothing here runs.
#![recursion_limit = "2048"]
#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals)]
use stabby::abi as abi;

/// arguments tried for every type parameter of every `impl IStable`
pub mod pool {
    use core::num::*;
    pub type Unit = ();
    pub type A8 = u8;
    pub type A16 = u16;
    pub type A32 = u32;
    pub type A64 = u64;
    pub type A128 = u128;
    pub type S8 = i8;
    pub type Bo = bool;
    pub type Re = &'static u8;
    pub type Nz8 = NonZeroU8;
    pub type Nz16 = NonZeroU16;
    pub type Nz32 = NonZeroU32;
    pub type Nz64 = NonZeroU64;
    pub type Nz128 = NonZeroU128;
    pub type F64 = f64;
    pub type T2a = stabby::tuple::Tuple2<u8, u16>;
    pub type T2b = stabby::tuple::Tuple2<u16, u8>;
    pub type T2c = stabby::tuple::Tuple2<u32, u8>;
    pub type T2d = stabby::tuple::Tuple2<u8, u32>;
    pub type T2e = stabby::tuple::Tuple2<bool, NonZeroU16>;
    pub type T3a = stabby::tuple::Tuple3<u8, NonZeroU8, u16>;
    pub type T3b = stabby::tuple::Tuple3<u16, u8, u64>;
    pub type Arr1 = [u8; 1];
    pub type Arr0 = [u64; 0];
    pub type Arr3 = [u16; 3];
    pub type Arr2 = [NonZeroU8; 2];
    pub type Ob = stabby::option::Option<bool>;
    pub type O32 = stabby::option::Option<u32>;
    pub type Onz = stabby::option::Option<NonZeroU16>;
    pub type R1 = stabby::result::Result<u8, u16>;
    pub type R2 = stabby::result::Result<bool, NonZeroU32>;
    pub type R3 = stabby::result::Result<stabby::tuple::Tuple2<u8, u32>, u16>;
    pub type R4 = stabby::result::Result<(), ()>;
    pub type NOpt = core::option::Option<&'static u16>;
    pub type NRes = core::result::Result<(), NonZeroU8>;
    pub type Pad = crate::user::Padded;
    pub type CLike = crate::user::CLike8;
    pub type CEn = crate::user::FieldsC8;
    pub type SEn = crate::user::Multi;
    pub type Un = crate::user::Un;
    pub type PadByte = stabby::abi::istable::NotPod<u32>;
    pub type Align16 = crate::user::Al16;
}
pub mod pool_big {
    pub type VecU8 = stabby::vec::Vec<u8>;
    pub type BoxU = stabby::boxed::Box<u32>;
    pub type ArcU = stabby::sync::Arc<u32>;
    pub type WeakU = stabby::sync::Weak<u32>;
    pub type BoxedSl = stabby::boxed::BoxedSlice<u16>;
    pub type BoxedSt = stabby::boxed::BoxedStr;
    pub type Stri = stabby::string::String;
    pub type StrT = stabby::str::Str<'static>;
    pub type Sl = stabby::slice::Slice<'static, u16>;
    pub type SlM = stabby::slice::SliceMut<'static, u16>;
    pub type RustA = stabby::alloc::DefaultAllocator;
    pub type DynA = stabby::Dyn<'static, stabby::boxed::Box<()>, stabby::vtable!(crate::user::Tr)>;
    pub type DynR = stabby::DynRef<'static, stabby::vtable!(crate::user::Tr)>;
    pub type FnP = extern "C" fn(u8) -> u32;
    pub type Wk = stabby::future::StableWaker<'static>;
    pub type Gen1 = crate::user::Gen<u8, u32>;
    pub type Gen2 = crate::user::Gen<bool, core::num::NonZeroU64>;
    pub type Gen3 = crate::user::Gen<stabby::result::Result<u8, bool>, u16>;
    pub type GenE = crate::user::GenE<u16>;
    pub type GenE2 = crate::user::GenE<core::num::NonZeroU8>;
    pub type GenE3 = crate::user::GenE<bool>;
    pub type GenU1 = crate::user::GenU<u8, u32>;
    pub type GenU2 = crate::user::GenU<core::num::NonZeroU16, u64>;
}
/// arguments tried in every combination for impls with two type parameters
pub mod pool_pair {
    use core::num::*;
    pub type Unit = ();
    pub type A8 = u8;
    pub type A16 = u16;
    pub type A64 = u64;
    pub type Bo = bool;
    pub type Re = &'static u8;
    pub type Nz8 = NonZeroU8;
    pub type Nz32 = NonZeroU32;
    pub type T2a = stabby::tuple::Tuple2<u8, u16>;
    pub type T2c = stabby::tuple::Tuple2<u32, u8>;
    pub type T2e = stabby::tuple::Tuple2<bool, NonZeroU16>;
    pub type Arr0 = [u64; 0];
    pub type Arr3 = [u16; 3];
    pub type O32 = stabby::option::Option<u32>;
    pub type R2 = stabby::result::Result<bool, NonZeroU32>;
    pub type CEn = crate::user::FieldsC8;
    pub type Un = crate::user::Un;
}
pub mod pool_num {
    use stabby::abi::typenum2::*;
    pub type N0 = U0;
    pub type N1 = U1;
    pub type N2 = U2;
    pub type N3 = U3;
    pub type N8 = U8;
    pub type N255 = U255;
    pub type Bi0 = B0;
    pub type Bi1 = B1;
}
pub mod vt {
    #[repr(transparent)]
    pub struct X(pub u8);
}
/// what a user of the macros writes
pub mod user {
    use core::num::*;
    use stabby::tuple::*;
    #[stabby::stabby]
    pub trait Tr {
        extern "C" fn a(&self) -> u8;
        extern "C" fn b(&mut self, x: u32) -> u32;
    }
    #[stabby::stabby(no_opt)]
    pub struct Padded {
        pub a: u8,
        pub b: u32,
        pub c: u16,
    }
    #[stabby::stabby(no_opt)]
    pub struct Ordered {
        pub b: u32,
        pub c: u16,
        pub a: u8,
    }
    #[stabby::stabby(no_opt)]
    pub struct NoOpt {
        pub a: u8,
        pub b: u64,
        pub c: bool,
        pub d: u32,
    }
    #[stabby::stabby(no_opt)]
    #[repr(C)]
    pub struct ReprC {
        pub a: NonZeroU8,
        pub b: u16,
    }
    #[stabby::stabby]
    #[repr(transparent)]
    pub struct Tp(pub NonZeroU32);
    #[stabby::stabby(no_opt)]
    #[repr(C)]
    #[repr(align(16))]
    pub struct Al16 {
        pub a: u32,
        pub b: u8,
    }
    #[stabby::stabby(no_opt)]
    #[repr(C)]
    #[repr(align(64))]
    pub struct Al64(pub NonZeroU8);
    #[stabby::stabby]
    pub struct Empty;
    #[stabby::stabby]
    pub struct Empty2 {}
    #[stabby::stabby(no_opt)]
    pub struct TupleLike(pub u16, pub u8, pub bool);
    #[stabby::stabby(no_opt)]
    pub struct Nested {
        pub a: TupleLike,
        pub b: Padded,
        pub c: stabby::option::Option<u8>,
    }
    #[stabby::stabby(no_opt)]
    pub struct Ptrs<'a> {
        pub a: &'a u32,
        pub b: &'a mut u8,
        pub c: extern "C" fn(u8) -> u8,
        pub d: NonNull<u8>,
        pub e: u8,
    }
    use core::ptr::NonNull;
    #[stabby::stabby(no_opt)]
    pub struct Ten {
        pub a: u8,
        pub b: u16,
        pub c: u8,
        pub d: u32,
        pub e: u8,
        pub f: u64,
        pub g: u8,
        pub h: u128,
        pub i: bool,
        pub j: u16,
    }
    #[stabby::stabby]
    pub struct Gen<A, B> {
        pub a: A,
        pub b: B,
    }
    #[stabby::stabby]
    pub struct Gen1<A> {
        pub a: A,
    }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum CLike8 {
        A,
        B,
        C,
    }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum CLike8One {
        A,
    }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum CLike8Disc {
        A = 7,
        B = 9,
        C = 200,
    }
    #[stabby::stabby]
    #[repr(i8)]
    pub enum CLikeI8 {
        A = -3,
        B = 9,
    }
    #[stabby::stabby]
    #[repr(u16)]
    pub enum CLike16 {
        A,
        B = 300,
    }
    #[stabby::stabby]
    #[repr(u32)]
    pub enum CLike32 {
        A,
        B,
        C,
    }
    #[stabby::stabby]
    #[repr(u64)]
    pub enum CLike64 {
        A,
        B,
    }
    #[stabby::stabby]
    #[repr(usize)]
    pub enum CLikeUsize {
        A,
        B,
    }
    #[stabby::stabby]
    #[repr(C, u8)]
    pub enum FieldsC8 {
        A(NonZeroU16),
        B,
        C(Tuple2<u8, u16>),
        D(u8),
        E,
    }
    #[stabby::stabby]
    #[repr(C, u16)]
    pub enum FieldsC16 {
        A { x: u8, y: u32 },
        B,
        C(bool),
    }
    #[stabby::stabby]
    #[repr(C, u8)]
    pub enum FieldsC1 {
        A(u8, bool),
        B(u16),
        C { x: NonZeroU8, y: u8, z: u8 },
    }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum FieldsU8 {
        A(u8),
        B,
        C(u8),
    }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum FieldsU8Mixed {
        A(u8),
        B(u32),
        C(Tuple2<u8, u16>),
        D,
    }
    #[stabby::stabby]
    #[repr(u16)]
    pub enum FieldsU16Mixed {
        A(u8),
        B(u64),
    }
    #[stabby::stabby(no_opt)]
    #[repr(align(32))]
    pub struct AlOnly {
        pub a: u8,
        pub b: u32,
        pub c: u8,
    }
    #[stabby::stabby(no_opt)]
    #[repr(align(8))]
    pub struct AlUnit;
    #[stabby::stabby(no_opt)]
    #[repr(align(4))]
    #[repr(align(16))]
    #[repr(C)]
    pub struct AlTwice(pub u8, pub bool);
    #[stabby::stabby(no_opt)]
    #[repr(C, align(8))]
    pub struct AlBoth {
        pub a: u8,
        pub b: u16,
    }
    #[stabby::stabby]
    #[repr(stabby)]
    pub enum Multi {
        A(NonZeroU16),
        B,
        C(Tuple2<u8, u16>),
        D(u32),
        E,
    }
    #[stabby::stabby]
    #[repr(stabby)]
    pub enum Two {
        A(bool),
        B(u8),
    }
    #[stabby::stabby]
    #[repr(stabby)]
    pub enum Three {
        A(Tuple2<u8, u32>),
        B,
        C(&'static u8),
    }
    #[stabby::stabby]
    #[repr(stabby)]
    pub enum GenE<T> {
        A(T),
        B,
        C(u8),
    }
    #[stabby::stabby]
    pub union Un {
        pub a: u8,
        pub b: u64,
        pub c: Tuple3<u32, u32, u32>,
    }
    #[stabby::stabby]
    pub union GenU<A, B> {
        pub a: core::mem::ManuallyDrop<A>,
        pub b: core::mem::ManuallyDrop<B>,
    }
    #[stabby::stabby]
    pub union UnNz {
        pub a: NonZeroU8,
        pub b: NonZeroU32,
    }
}
/// instances with more parameters than the generic product covers well
pub mod more {
    pub type Ci = stabby::abi::checked_import::CheckedImport<extern "C" fn(u8) -> u32>;
    pub type Nn = stabby::abi::NoNiches<stabby::abi::typenum2::U8, stabby::abi::typenum2::U4>;
    pub type Map1 = stabby::collections::arc_btree::ArcBTreeMap<u16, u32>;
    pub type Set1 = stabby::collections::arc_btree::ArcBTreeSet<u64>;
    pub type AaMap = stabby::collections::arc_btree::AtomicArcBTreeSet<u64, false, 5>;
    #[stabby::stabby]
    pub struct Fut(core::num::NonZeroU32);
    impl core::future::Future for Fut {
        type Output = u16;
        fn poll(self: core::pin::Pin<&mut Self>, _: &mut core::task::Context<'_>) -> core::task::Poll<u16> {
            core::task::Poll::Ready(1)
        }
    }
    pub type Mr = stabby::future::MaybeResolved<u16, Fut>;
    use stabby::tuple::*;
    use core::cell::*;
    use core::sync::atomic::*;
    pub type Ce1 = UnsafeCell<Tuple2<u32, u8>>;
    pub type Ce2 = Tuple2<UnsafeCell<Tuple2<u32, u8>>, u8>;
    pub type At1 = AtomicBool;
    pub type At2 = Tuple2<AtomicU32, AtomicPtr<u8>>;
    pub type Mu1 = core::mem::MaybeUninit<Tuple2<u32, u8>>;
    pub type T1 = Tuple1<u16>;
    pub type T4 = Tuple4<u8, u16, u32, u64>;
    pub type T5 = Tuple5<u8, u64, u8, u16, bool>;
    pub type T8 = Tuple8<u8, u16, u8, u32, u8, u64, u8, u128>;
    pub type T8b = Tuple8<bool, core::num::NonZeroU16, u32, u8, u8, u8, u8, u8>;
    pub type G1 = crate::user::Gen1<u8>;
    pub type G2 = crate::user::Gen1<core::num::NonZeroU32>;
    pub type G3 = crate::user::Gen1<stabby::option::Option<u8>>;
    pub type V = stabby::vec::Vec<stabby::string::String>;
    pub type D1 = stabby::Dyn<'static, stabby::sync::Arc<()>, stabby::vtable!(crate::user::Tr + Send + Sync)>;
    pub type D2 = stabby::Dyn<'static, &'static (), stabby::vtable!(crate::user::Tr)>;
    pub type D3 = stabby::Dyn<'static, &'static mut (), stabby::vtable!(crate::user::Tr)>;
    pub type Nested = stabby::result::Result<stabby::result::Result<u8, bool>, stabby::option::Option<stabby::option::Option<u8>>>;
}
/// expressions of the type-level arithmetic macro; the name says what the expression is worth
pub mod tyeval_ {
    use stabby::abi::typenum2::*;
    use stabby_macros::tyeval;
    pub type Num11_add = tyeval!(U5 + U6);
    pub type Num0_sub = tyeval!(U6 - U6);
    pub type Num7_sub = tyeval!(U12 - U5);
    pub type Num2_rem = tyeval!(U10 % U4);
    pub type Num14_or = tyeval!(U10 | U12);
    pub type Num8_and = tyeval!(U10 & U12);
    pub type Bit1_eq = tyeval!(U10 == U10);
    pub type Bit0_eq = tyeval!(U10 == U11);
    pub type Bit0_not = tyeval!(!B1);
    pub type Bit1_not = tyeval!(!B0);
    pub type Num3_tern = tyeval!(B1 ? U3 : U9);
    pub type Num9_tern = tyeval!(B0 ? U3 : U9);
    pub type Num6_nest = tyeval!((U2 == U3) ? U1 : (U4 + (U9 - (U3 + U4))));
    pub type Num21_nest = tyeval!(((U8 % U8) == U0) ? (U10 + U11) : (U1 | U2));
    pub type Num11_path = tyeval!(<U5 as Unsigned>::NextMultipleOf<U8> + <U3 as Unsigned>::Min<U4>) ;
}
