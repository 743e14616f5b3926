#!/usr/bin/env python3
"""dev tool: writes src/lib.rs"""
import itertools, os
SIGS = [
    ("nothing", "", "", "", 'extern "C"'),
    ("one", "", "a: u8", "u32", 'extern "C"'),
    ("order", "", "a: u8, b: u16, c: &'static u64", "u32", 'extern "C"'),
    ("swapped", "", "a: u16, b: u8, c: &'static u64", "u32", 'extern "C"'),
    ("structs", "", "p: crate::types::Plain, q: stabby::tuple::Tuple2<u8, crate::types::Plain>", "crate::types::Plain", 'extern "C"'),
    ("sums", "", "p: stabby::option::Option<crate::types::Plain>", "stabby::result::Result<u8, crate::types::Plain>", 'extern "C"'),
    ("uns", "unsafe ", "p: *const u8, n: usize", "u8", 'extern "C"'),
    ("unwinding", "", "a: u8", "u8", 'extern "C-unwind"'),
    ("boxed", "", "b: stabby::boxed::Box<crate::types::Plain>", "stabby::vec::Vec<u8>", 'extern "C"'),
    ("dynamic", "", "b: stabby::Dyn<'static, stabby::boxed::Box<()>, stabby::vtable!(crate::types::Tr + Send)>", "u8", 'extern "C"'),
]
KINDS = ["rustc", "opt_level", "debug", "num_jobs", "target", "host"]
out = ['''//! Functions exported and imported through the library's macros. Nothing here runs or is linked.
#![allow(dead_code, unused, non_snake_case, clippy::all)]
pub mod types {
    #[stabby::stabby] pub struct Plain { pub a: u8, pub b: u32 }
    #[stabby::stabby] pub trait Tr { extern "C" fn m(&self) -> u8; }
}
pub mod exported {
    use crate::types::*;''']
for n, uns, args, ret, abi in SIGS:
    r = " -> " + ret if ret else ""
    out.append('    #[stabby::export] pub %s%s fn %s(%s)%s { loop {} }' % (uns, abi, n, args, r))
for n, uns, args, ret, abi in SIGS[:7]:
    r = " -> " + ret if ret else ""
    out.append('    #[stabby::export(canaries)] pub %s%s fn c_%s(%s)%s { loop {} }' % (uns, abi, n, args, r))
out.append('    #[stabby::export(canaries)] pub extern "C" fn c_unstable(a: (u8, u16), b: Option<u8>) -> [(u8, u32); 2] { loop {} }')
out.append('}\npub mod imported {\n    use crate::types::*;')
for n, uns, args, ret, abi in SIGS:
    r = " -> " + ret if ret else ""
    if "unwind" in abi:
        continue  # importing through another convention is refused by the compiler
    # an extern block declares its functions' safety as written
    out.append('    #[stabby::import(name = "w")] %s%s { pub fn %s(%s)%s; }' % ("", abi, n, args, r) if not uns else
               '    #[stabby::import(name = "w")] %s { pub unsafe fn %s(%s)%s; }' % (abi, n, args, r))
out.append('}\npub mod several {\n    use crate::types::*;')
out.append('    #[stabby::import(name = "w")] extern "C" { pub fn nothing(); pub fn one(a: u8) -> u32; pub fn order(a: u8, b: u16, c: &\'static u64) -> u32; }')
out.append('}\npub mod canaried {\n    use crate::types::*;')
i = 0
for k in range(0, 7):
    for sub in itertools.combinations(KINDS, k):
        spec = ", ".join(sub) if sub else "none"
        n, uns, args, ret, abi = SIGS[i % 7]
        r = " -> " + ret if ret else ""
        out.append('    pub mod s%02d { use crate::types::*; #[stabby::import(canaries = "%s", name = "w")] extern "C" { pub fn c_%s(%s)%s; } }' % (i, spec, n, args, r))
        i += 1
out.append('    pub mod s%02d { use crate::types::*; #[stabby::import(canaries = "", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; pub fn c_nothing(); } }' % i)
out.append('    pub mod s%02d { use crate::types::*; #[stabby::import(canaries = "paranoid", name = "w")] extern "C" { pub fn c_one(a: u8) -> u32; } }' % (i + 1))
out.append("}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "lib.rs"), "w").write("\n".join(out) + "\n")
