A = "stabby-abi/src/"
SEEDS = [
dict(id="c01-union-tail-padding", property="C01",
  edits=[(A+"istable.rs", "type Size = <<A::Size as Unsigned>::Max<B::Size> as Unsigned>::NextMultipleOf<Self::Align>;", "type Size = <A::Size as Unsigned>::Max<B::Size>;")],
  needs="a stable union whose biggest field's size isn't a multiple of the most aligned field's alignment",
  breaks="the union's advertised size is smaller than its real one, so fields placed after it (and sum type tags) are computed at the wrong offsets",
  demo='''
use stabby_abi::{IStable, typenum2::Unsigned};
#[stabby::stabby]
#[derive(Clone, Copy)]
#[repr(C)]
pub union U { pub a: [u8; 3], pub b: u16 }
#[stabby::stabby]
#[repr(C)]
pub union V { pub a: [u8; 4], pub b: u16 }
fn main() {
    assert_eq!(<<V as IStable>::Size as Unsigned>::USIZE, core::mem::size_of::<V>());
    assert_eq!(<<U as IStable>::Size as Unsigned>::USIZE, core::mem::size_of::<U>());
}
'''),
dict(id="c02-empty-array-niches", property="C02",
  edits=[(A+"stable_impls/mod.rs", "type ForbiddenValues = <<$size as Unsigned>::Equal<U1> as Bit>::FvTernary<T::ForbiddenValues, End>;", "type ForbiddenValues = <<$size as Unsigned>::SmallerOrEq<U1> as Bit>::FvTernary<T::ForbiddenValues, End>;")],
  needs="an empty array of a type with niches, next to a field that can hold the niche's value",
  breaks="an empty array advertises its element's forbidden values, which land on the following field",
  demo='''
#[stabby::stabby]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct S { pub none: [bool; 0], pub v: u8 }
fn main() {
    for v in 0..=255u8 {
        let o: stabby::option::Option<S> = stabby::option::Option::Some(S { none: [], v });
        assert!(o.is_some(), "Some({v}) reads as None");
    }
}
'''),
dict(id="c03-empty-array-one-niche", property="C03",
  edits=[(A+"stable_impls/mod.rs", """                B0,
                <<$size as Unsigned>::Equal<U1> as Bit>::SaddTernary<T::HasExactlyOneNiche, Saturator>,""", """                T::HasExactlyOneNiche,
                <<$size as Unsigned>::Equal<U1> as Bit>::SaddTernary<T::HasExactlyOneNiche, Saturator>,""")],
  needs="core::option::Option of an empty array of a single-niche type",
  breaks="an empty array claims its element's niche, so its core Option is declared stable with a layout rustc doesn't use",
  demo='''
use core::num::NonZeroU8;
use stabby_abi::{IStable, typenum2::Unsigned, istable::{ISaturatingAdd, SaturatingAddValue}};
fn main() {
    assert_eq!(<<[NonZeroU8; 0] as IStable>::Size as Unsigned>::USIZE, 0);
    let one = matches!(<<[NonZeroU8; 0] as IStable>::HasExactlyOneNiche as ISaturatingAdd>::VALUE, SaturatingAddValue::B1);
    let same = core::mem::size_of::<Option<[NonZeroU8; 0]>>() == core::mem::size_of::<[NonZeroU8; 0]>();
    assert!(!one || same, "[NonZeroU8; 0] claims exactly one niche, but Option<[NonZeroU8; 0]> is bigger than it");
}
'''),
dict(id="c04-half-free-byte", property="C04",
  edits=[(A+"istable.rs", "<<O::Equal<Offset> as Bit>::And<T::Equal<UxFF>> as Bit>::Or<Rest::HasFreeByteAt<O>>;", "<<O::Equal<Offset> as Bit>::And<T::Greater<U127>> as Bit>::Or<Rest::HasFreeByteAt<O>>;")],
  needs="an error with a forbidden value over a byte of the ok variant that only has some unused bits",
  breaks="the tag is a whole-byte value written over (and compared with) a byte whose remaining bits hold the other variant's data",
  demo='''
use stabby::result::Result as R;
type Inner = stabby::option::Option<u8>; // [payload, tag]: the tag byte has 7 unused bits
#[stabby::stabby]
#[derive(Clone, Copy)]
pub struct E { pub b: core::num::NonZeroU8, pub x: u8 }
fn mk(some: bool) -> Inner { if some { Inner::Some(3) } else { Inner::None() } }
fn main() {
    for s in [true, false] {
        let r: R<Inner, E> = R::Ok(mk(s));
        assert!(r.is_ok(), "Ok reads as Err");
        let got = r.match_ref(|i| i.is_some(), |_| panic!());
        assert_eq!(got, s, "the payload's own tag was lost");
        for b in 1..=255 {
            let r: R<Inner, E> = R::Err(E { x: 0, b: core::num::NonZeroU8::new(b).unwrap() });
            assert!(r.is_err(), "Err reads as Ok");
        }
    }
}
'''),
dict(id="c04-unit-tag-reused", property="C04",
  edits=[(A+"enums/err_size_0.rs", """        NicheExporter<End, <Array<Offset, V, Rest> as IBitMask>::ExtractBit, Saturator>;""", """        NicheExporter<End, Array<Offset, V, Rest>, Saturator>;""")],
  needs="two nested options around a payload with padding",
  breaks="the bit used as the inner option's tag is exported as still unused, so the outer option writes its own tag over it",
  demo='''
use stabby::option::Option as O;
#[stabby::stabby]
#[derive(Clone, Copy)]
pub struct P { pub a: u32, pub b: u16 }
fn main() {
    let o: O<O<P>> = O::None();
    assert!(o.is_none());
    let o: O<O<P>> = O::Some(O::None());
    assert!(o.is_some(), "Some(None) reads as None");
    assert!(o.match_ref(|i| i.is_none(), || panic!()));
    let o: O<O<P>> = O::Some(O::Some(P { a: 1, b: 2 }));
    assert!(o.match_ref(|i| i.is_some(), || panic!()));
}
'''),
dict(id="c22-mul-without-carries", property="C22",
  edits=[(A+"typenum2/unsigned.rs", """    type _Mul<T: IUnsigned> = <Bit::UTernary<T, UTerm> as IUnsigned>::Add<""", """    type _Mul<T: IUnsigned> = <Bit::UTernary<T, UTerm> as IUnsigned>::BitOr<""")],
  needs="a product whose partial sums overlap, such as 3 * 3 or 5 * 3",
  breaks="products of sizes by array lengths lose their carries, so the size of such arrays is too small",
  demo='''
use stabby_abi::{IStable, typenum2::{Unsigned, U3, U5, U4}};
fn main() {
    assert_eq!(<<U4 as Unsigned>::Mul<U3> as Unsigned>::USIZE, 12);
    assert_eq!(<<U5 as Unsigned>::Mul<U5> as Unsigned>::USIZE, 25);
    assert_eq!(<<[[u8; 3]; 3] as IStable>::Size as Unsigned>::USIZE, 9);
}
'''),
dict(id="c32-union-indirections", property="C32",
  edits=[(A+"istable.rs", """    type HasExactlyOneNiche = B0;
    type ContainsIndirections = <A::ContainsIndirections as Bit>::Or<B::ContainsIndirections>;
    #[cfg(feature = "experimental-ctypes")]
    type CType = <<Self::Align""", """    type HasExactlyOneNiche = B0;
    type ContainsIndirections = <A::ContainsIndirections as Bit>::And<B::ContainsIndirections>;
    #[cfg(feature = "experimental-ctypes")]
    type CType = <<Self::Align""")],
  needs="a union with one field that is a pointer and one that isn't",
  breaks="such unions are accepted as plain old data although they hold a pointer",
  demo='''
use stabby_abi::{IStable, B0, B1, typenum2::Bit};
#[stabby::stabby]
#[derive(Clone, Copy)]
#[repr(C)]
pub union U { pub a: usize, pub b: &'static u8 }
#[stabby::stabby]
#[derive(Clone, Copy)]
#[repr(C)]
pub union V { pub a: usize, pub b: u16 }
fn main() {
    let _: (B0, B1);
    assert!(!<<V as IStable>::ContainsIndirections as Bit>::BOOL);
    assert!(<<U as IStable>::ContainsIndirections as Bit>::BOOL, "a union with a reference passes as plain old data");
}
'''),
]
