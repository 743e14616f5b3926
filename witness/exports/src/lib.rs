//! Functions exported and imported through the library's macros. Nothing here runs or is linked.
#![allow(dead_code, unused, non_snake_case, clippy::all)]
pub mod types {
    #[stabby::stabby] pub struct Plain { pub a: u8, pub b: u32 }
    #[stabby::stabby] pub trait Tr { extern "C" fn m(&self) -> u8; }
}
pub mod exported {
    use crate::types::*;
    #[stabby::export] pub extern "C" fn nothing() { loop {} }
    #[stabby::export] pub extern "C" fn one(a: u8) -> u32 { loop {} }
    #[stabby::export] pub extern "C" fn order(a: u8, b: u16, c: &'static u64) -> u32 { loop {} }
    #[stabby::export] pub extern "C" fn swapped(a: u16, b: u8, c: &'static u64) -> u32 { loop {} }
    #[stabby::export] pub extern "C" fn structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain { loop {} }
    #[stabby::export] pub extern "C" fn sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain> { loop {} }
    #[stabby::export] pub unsafe extern "C" fn uns(p: *const u8, n: usize) -> u8 { loop {} }
    #[stabby::export] pub extern "C-unwind" fn unwinding(a: u8) -> u8 { loop {} }
    #[stabby::export] pub extern "C" fn boxed(b: stabby::boxed::Box<crate::types::Plain>) -> stabby::vec::Vec<u8> { loop {} }
    #[stabby::export] pub extern "C" fn dynamic(b: stabby::Dyn<'static, stabby::boxed::Box<()>, stabby::vtable!(crate::types::Tr + Send)>) -> u8 { loop {} }
    #[stabby::export(canaries)] pub extern "C" fn c_nothing() { loop {} }
    #[stabby::export(canaries)] pub extern "C" fn c_one(a: u8) -> u32 { loop {} }
    #[stabby::export(canaries)] pub extern "C" fn c_order(a: u8, b: u16, c: &'static u64) -> u32 { loop {} }
    #[stabby::export(canaries)] pub extern "C" fn c_swapped(a: u16, b: u8, c: &'static u64) -> u32 { loop {} }
    #[stabby::export(canaries)] pub extern "C" fn c_structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain { loop {} }
    #[stabby::export(canaries)] pub extern "C" fn c_sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain> { loop {} }
    #[stabby::export(canaries)] pub unsafe extern "C" fn c_uns(p: *const u8, n: usize) -> u8 { loop {} }
    #[stabby::export(canaries)] pub extern "C" fn c_unstable(a: (u8, u16), b: Option<u8>) -> [(u8, u32); 2] { loop {} }
}
pub mod imported {
    use crate::types::*;
    #[stabby::import(name = "w")] extern "C" { pub fn nothing(); }
    #[stabby::import(name = "w")] extern "C" { pub fn one(a: u8) -> u32; }
    #[stabby::import(name = "w")] extern "C" { pub fn order(a: u8, b: u16, c: &'static u64) -> u32; }
    #[stabby::import(name = "w")] extern "C" { pub fn swapped(a: u16, b: u8, c: &'static u64) -> u32; }
    #[stabby::import(name = "w")] extern "C" { pub fn structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain; }
    #[stabby::import(name = "w")] extern "C" { pub fn sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain>; }
    #[stabby::import(name = "w")] extern "C" { pub unsafe fn uns(p: *const u8, n: usize) -> u8; }
    #[stabby::import(name = "w")] extern "C" { pub fn boxed(b: stabby::boxed::Box<crate::types::Plain>) -> stabby::vec::Vec<u8>; }
    #[stabby::import(name = "w")] extern "C" { pub fn dynamic(b: stabby::Dyn<'static, stabby::boxed::Box<()>, stabby::vtable!(crate::types::Tr + Send)>) -> u8; }
}
pub mod several {
    use crate::types::*;
    #[stabby::import(name = "w")] extern "C" { pub fn nothing(); pub fn one(a: u8) -> u32; pub fn order(a: u8, b: u16, c: &'static u64) -> u32; }
}
pub mod canaried {
    use crate::types::*;
    pub mod s00 { use crate::types::*; #[stabby::import(canaries = "none", name = "w")] extern "C" { pub fn c_nothing(); } }
    pub mod s01 { use crate::types::*; #[stabby::import(canaries = "rustc", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }
    pub mod s02 { use crate::types::*; #[stabby::import(canaries = "opt_level", name = "w")] extern "C" { pub fn c_order(a: u8, b: u16, c: &'static u64) -> u32; } }
    pub mod s03 { use crate::types::*; #[stabby::import(canaries = "debug", name = "w")] extern "C" { pub fn c_swapped(a: u16, b: u8, c: &'static u64) -> u32; } }
    pub mod s04 { use crate::types::*; #[stabby::import(canaries = "num_jobs", name = "w")] extern "C" { pub fn c_structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain; } }
    pub mod s05 { use crate::types::*; #[stabby::import(canaries = "target", name = "w")] extern "C" { pub fn c_sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain>; } }
    pub mod s06 { use crate::types::*; #[stabby::import(canaries = "host", name = "w")] extern "C" { pub fn c_uns(p: *const u8, n: usize) -> u8; } }
    pub mod s07 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level", name = "w")] extern "C" { pub fn c_nothing(); } }
    pub mod s08 { use crate::types::*; #[stabby::import(canaries = "rustc, debug", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }
    pub mod s09 { use crate::types::*; #[stabby::import(canaries = "rustc, num_jobs", name = "w")] extern "C" { pub fn c_order(a: u8, b: u16, c: &'static u64) -> u32; } }
    pub mod s10 { use crate::types::*; #[stabby::import(canaries = "rustc, target", name = "w")] extern "C" { pub fn c_swapped(a: u16, b: u8, c: &'static u64) -> u32; } }
    pub mod s11 { use crate::types::*; #[stabby::import(canaries = "rustc, host", name = "w")] extern "C" { pub fn c_structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain; } }
    pub mod s12 { use crate::types::*; #[stabby::import(canaries = "opt_level, debug", name = "w")] extern "C" { pub fn c_sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain>; } }
    pub mod s13 { use crate::types::*; #[stabby::import(canaries = "opt_level, num_jobs", name = "w")] extern "C" { pub fn c_uns(p: *const u8, n: usize) -> u8; } }
    pub mod s14 { use crate::types::*; #[stabby::import(canaries = "opt_level, target", name = "w")] extern "C" { pub fn c_nothing(); } }
    pub mod s15 { use crate::types::*; #[stabby::import(canaries = "opt_level, host", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }
    pub mod s16 { use crate::types::*; #[stabby::import(canaries = "debug, num_jobs", name = "w")] extern "C" { pub fn c_order(a: u8, b: u16, c: &'static u64) -> u32; } }
    pub mod s17 { use crate::types::*; #[stabby::import(canaries = "debug, target", name = "w")] extern "C" { pub fn c_swapped(a: u16, b: u8, c: &'static u64) -> u32; } }
    pub mod s18 { use crate::types::*; #[stabby::import(canaries = "debug, host", name = "w")] extern "C" { pub fn c_structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain; } }
    pub mod s19 { use crate::types::*; #[stabby::import(canaries = "num_jobs, target", name = "w")] extern "C" { pub fn c_sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain>; } }
    pub mod s20 { use crate::types::*; #[stabby::import(canaries = "num_jobs, host", name = "w")] extern "C" { pub fn c_uns(p: *const u8, n: usize) -> u8; } }
    pub mod s21 { use crate::types::*; #[stabby::import(canaries = "target, host", name = "w")] extern "C" { pub fn c_nothing(); } }
    pub mod s22 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, debug", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }
    pub mod s23 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, num_jobs", name = "w")] extern "C" { pub fn c_order(a: u8, b: u16, c: &'static u64) -> u32; } }
    pub mod s24 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, target", name = "w")] extern "C" { pub fn c_swapped(a: u16, b: u8, c: &'static u64) -> u32; } }
    pub mod s25 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, host", name = "w")] extern "C" { pub fn c_structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain; } }
    pub mod s26 { use crate::types::*; #[stabby::import(canaries = "rustc, debug, num_jobs", name = "w")] extern "C" { pub fn c_sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain>; } }
    pub mod s27 { use crate::types::*; #[stabby::import(canaries = "rustc, debug, target", name = "w")] extern "C" { pub fn c_uns(p: *const u8, n: usize) -> u8; } }
    pub mod s28 { use crate::types::*; #[stabby::import(canaries = "rustc, debug, host", name = "w")] extern "C" { pub fn c_nothing(); } }
    pub mod s29 { use crate::types::*; #[stabby::import(canaries = "rustc, num_jobs, target", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }
    pub mod s30 { use crate::types::*; #[stabby::import(canaries = "rustc, num_jobs, host", name = "w")] extern "C" { pub fn c_order(a: u8, b: u16, c: &'static u64) -> u32; } }
    pub mod s31 { use crate::types::*; #[stabby::import(canaries = "rustc, target, host", name = "w")] extern "C" { pub fn c_swapped(a: u16, b: u8, c: &'static u64) -> u32; } }
    pub mod s32 { use crate::types::*; #[stabby::import(canaries = "opt_level, debug, num_jobs", name = "w")] extern "C" { pub fn c_structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain; } }
    pub mod s33 { use crate::types::*; #[stabby::import(canaries = "opt_level, debug, target", name = "w")] extern "C" { pub fn c_sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain>; } }
    pub mod s34 { use crate::types::*; #[stabby::import(canaries = "opt_level, debug, host", name = "w")] extern "C" { pub fn c_uns(p: *const u8, n: usize) -> u8; } }
    pub mod s35 { use crate::types::*; #[stabby::import(canaries = "opt_level, num_jobs, target", name = "w")] extern "C" { pub fn c_nothing(); } }
    pub mod s36 { use crate::types::*; #[stabby::import(canaries = "opt_level, num_jobs, host", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }
    pub mod s37 { use crate::types::*; #[stabby::import(canaries = "opt_level, target, host", name = "w")] extern "C" { pub fn c_order(a: u8, b: u16, c: &'static u64) -> u32; } }
    pub mod s38 { use crate::types::*; #[stabby::import(canaries = "debug, num_jobs, target", name = "w")] extern "C" { pub fn c_swapped(a: u16, b: u8, c: &'static u64) -> u32; } }
    pub mod s39 { use crate::types::*; #[stabby::import(canaries = "debug, num_jobs, host", name = "w")] extern "C" { pub fn c_structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain; } }
    pub mod s40 { use crate::types::*; #[stabby::import(canaries = "debug, target, host", name = "w")] extern "C" { pub fn c_sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain>; } }
    pub mod s41 { use crate::types::*; #[stabby::import(canaries = "num_jobs, target, host", name = "w")] extern "C" { pub fn c_uns(p: *const u8, n: usize) -> u8; } }
    pub mod s42 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, debug, num_jobs", name = "w")] extern "C" { pub fn c_nothing(); } }
    pub mod s43 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, debug, target", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }
    pub mod s44 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, debug, host", name = "w")] extern "C" { pub fn c_order(a: u8, b: u16, c: &'static u64) -> u32; } }
    pub mod s45 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, num_jobs, target", name = "w")] extern "C" { pub fn c_swapped(a: u16, b: u8, c: &'static u64) -> u32; } }
    pub mod s46 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, num_jobs, host", name = "w")] extern "C" { pub fn c_structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain; } }
    pub mod s47 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, target, host", name = "w")] extern "C" { pub fn c_sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain>; } }
    pub mod s48 { use crate::types::*; #[stabby::import(canaries = "rustc, debug, num_jobs, target", name = "w")] extern "C" { pub fn c_uns(p: *const u8, n: usize) -> u8; } }
    pub mod s49 { use crate::types::*; #[stabby::import(canaries = "rustc, debug, num_jobs, host", name = "w")] extern "C" { pub fn c_nothing(); } }
    pub mod s50 { use crate::types::*; #[stabby::import(canaries = "rustc, debug, target, host", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }
    pub mod s51 { use crate::types::*; #[stabby::import(canaries = "rustc, num_jobs, target, host", name = "w")] extern "C" { pub fn c_order(a: u8, b: u16, c: &'static u64) -> u32; } }
    pub mod s52 { use crate::types::*; #[stabby::import(canaries = "opt_level, debug, num_jobs, target", name = "w")] extern "C" { pub fn c_swapped(a: u16, b: u8, c: &'static u64) -> u32; } }
    pub mod s53 { use crate::types::*; #[stabby::import(canaries = "opt_level, debug, num_jobs, host", name = "w")] extern "C" { pub fn c_structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain; } }
    pub mod s54 { use crate::types::*; #[stabby::import(canaries = "opt_level, debug, target, host", name = "w")] extern "C" { pub fn c_sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain>; } }
    pub mod s55 { use crate::types::*; #[stabby::import(canaries = "opt_level, num_jobs, target, host", name = "w")] extern "C" { pub fn c_uns(p: *const u8, n: usize) -> u8; } }
    pub mod s56 { use crate::types::*; #[stabby::import(canaries = "debug, num_jobs, target, host", name = "w")] extern "C" { pub fn c_nothing(); } }
    pub mod s57 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, debug, num_jobs, target", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }
    pub mod s58 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, debug, num_jobs, host", name = "w")] extern "C" { pub fn c_order(a: u8, b: u16, c: &'static u64) -> u32; } }
    pub mod s59 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, debug, target, host", name = "w")] extern "C" { pub fn c_swapped(a: u16, b: u8, c: &'static u64) -> u32; } }
    pub mod s60 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, num_jobs, target, host", name = "w")] extern "C" { pub fn c_structs(p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>) -> crate::types::Plain; } }
    pub mod s61 { use crate::types::*; #[stabby::import(canaries = "rustc, debug, num_jobs, target, host", name = "w")] extern "C" { pub fn c_sums(p: stabby::option::Option<crate::types::Plain>) -> stabby::result::Result<u8, crate::types::Plain>; } }
    pub mod s62 { use crate::types::*; #[stabby::import(canaries = "opt_level, debug, num_jobs, target, host", name = "w")] extern "C" { pub fn c_uns(p: *const u8, n: usize) -> u8; } }
    pub mod s63 { use crate::types::*; #[stabby::import(canaries = "rustc, opt_level, debug, num_jobs, target, host", name = "w")] extern "C" { pub fn c_nothing(); } }
    pub mod s64 { use crate::types::*; #[stabby::import(canaries = "", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; pub fn c_nothing(); } }
    pub mod s65 { use crate::types::*; #[stabby::import(canaries = "paranoid", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }
}
