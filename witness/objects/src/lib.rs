//! Traits of every shape the trait macro accepts; only compiled, never run.
#![allow(dead_code, clippy::all)]
use stabby::{boxed::Box, dynptr, sync::Arc};

/// Many methods of the same signature, shared and exclusive receivers interleaved.
#[stabby::stabby]
pub trait Many {
    extern "C" fn m0(&self) -> u32;
    extern "C" fn w0(&mut self) -> u32;
    extern "C" fn m1(&self) -> u32;
    extern "C" fn w1(&mut self) -> u32;
    extern "C" fn m2(&self) -> u32;
    extern "C" fn w2(&mut self) -> u32;
    extern "C" fn m3(&self) -> u32;
    extern "C" fn w3(&mut self) -> u32;
}
/// Exclusive receivers first.
#[stabby::stabby]
pub trait MutFirst {
    extern "C" fn set(&mut self, a: u64);
    extern "C" fn put(&mut self, a: u64);
    extern "C" fn get(&self) -> u64;
    extern "C" fn see(&self) -> u64;
}
/// Arguments that could be exchanged without a type error.
#[stabby::stabby]
pub trait Args {
    extern "C" fn one(&self, a: u32) -> u32;
    extern "C" fn two(&self, a: u32, b: u32) -> u32;
    extern "C" fn three(&mut self, a: u32, b: u32, c: u32) -> u32;
    extern "C" fn six(&mut self, a: u8, b: u8, c: u8, d: u8, e: u8, f: u8) -> u8;
    extern "C" fn mixed(&self, a: u8, b: &u64, c: stabby::option::Option<u32>) -> (); 
}
/// Every kind of function pointer.
#[stabby::stabby]
pub trait Abis {
    extern "C" fn a(&self) -> u8;
    extern "C-unwind" fn b(&self) -> u8;
    extern "system" fn c(&self) -> u8;
    extern "C" fn d(&mut self) -> u8;
}
/// A single shared method.
#[stabby::stabby]
pub trait OneRef {
    extern "C" fn only(&self);
}
/// A single exclusive method.
#[stabby::stabby]
pub trait OneMut {
    extern "C" fn only_mut(&mut self);
}
/// Lifetimes of the method's own.
#[stabby::stabby]
pub trait Lifetimes {
    extern "C" fn pick<'a>(&'a self, a: &'a u32, b: &'a u32) -> &'a u32;
    extern "C" fn late<'a, 'b>(&'a mut self, a: &'b u32, b: &'b u32) -> &'b u32;
}
/// Type parameters of the trait.
#[stabby::stabby]
pub trait Generic<A: stabby::IStable, B: stabby::IStable> {
    extern "C" fn first(&self, a: A, b: B) -> u8;
    extern "C" fn second(&mut self, b: B, a: A) -> u8;
}
/// Associated types that could be exchanged without a type error.
#[stabby::stabby]
pub trait Assoc {
    type X: stabby::IStable;
    type Y: stabby::IStable;
    extern "C" fn make_x(&self) -> Self::X;
    extern "C" fn make_y(&self) -> Self::Y;
    extern "C" fn take(&mut self, y: Self::Y, x: Self::X) -> u8;
}
/// Type parameters and associated types.
#[stabby::stabby]
pub trait GenericAssoc<A: stabby::IStable> {
    type Z: stabby::IStable;
    extern "C" fn turn(&mut self, a: A, z: Self::Z) -> Self::Z;
    extern "C" fn show(&self, z: Self::Z, a: A) -> u8;
}
/// Methods with bodies of their own.
#[stabby::stabby]
pub trait Defaulted {
    extern "C" fn given(&self) -> u8;
    extern "C" fn other(&mut self) -> u8;
}
/// Types without stable equivalent are let through.
#[stabby::stabby(checked)]
pub trait Checked {
    extern "C" fn ck(&self, a: u32, b: u32) -> u32;
    extern "C" fn ckm(&mut self, a: u32, b: u32) -> u32;
}
/// One of two traits with methods of the same name.
#[stabby::stabby]
pub trait SameA {
    extern "C" fn same(&self, a: u8) -> u8;
}
/// The other.
#[stabby::stabby]
pub trait SameB {
    extern "C" fn same(&self, a: u8) -> u8;
}

// Objects made of several traits; each alias's bounds are named in its type.
pub type P0 = dynptr!(Box<dyn Many>);
pub type P1 = dynptr!(Box<dyn Many + Args>);
pub type P2 = dynptr!(Box<dyn Args + Many>);
pub type P3 = dynptr!(Arc<dyn Many + Args + Abis + OneRef + OneMut + Send + Sync>);
pub type P4 = dynptr!(&'static mut dyn SameA);
pub type P5 = dynptr!(&'static dyn SameB);
pub type V0 = stabby::vtable!(Many);
pub type V1 = stabby::vtable!(Many + Args);
pub type V2 = stabby::vtable!(Args + Many);
pub type V3 = stabby::vtable!(Many + Args + Abis + OneRef + OneMut + Send + Sync);


pub fn bounds_p0(_: P0) {}
pub fn bounds_p1(_: P1) {}
pub fn bounds_p2(_: P2) {}
pub fn bounds_p3(_: P3) {}
pub fn bounds_p4(_: P4) {}
pub fn bounds_p5(_: P5) {}
pub fn bounds_v0(_: V0) {}
pub fn bounds_v1(_: V1) {}
pub fn bounds_v2(_: V2) {}
pub fn bounds_v3(_: V3) {}

// What each pointer becomes, and what it points to.
fn becomes<P: stabby::abi::IntoDyn<Target = T, Anonymized = A>, T, A>() {}
pub fn pointers() {
    becomes::<&'static u8, u8, &'static ()>();
    becomes::<&'static mut u8, u8, &'static mut ()>();
    becomes::<Box<u8>, u8, Box<()>>();
    becomes::<Arc<u8>, u8, Arc<()>>();
    becomes::<stabby::sync::Weak<u8>, u8, stabby::sync::Weak<()>>();
}
// Every method is within reach of an object of several traits.
pub fn reach(p: &mut P1, q: &mut P2, r: &P3) -> u32 {
    p.m0() + p.w0() + p.m3() + p.w3() + p.one(1) + p.three(1, 2, 3) + q.m1() + q.w1() + q.two(1, 2) + r.m2() + r.two(1, 2) + r.a() as u32
}
