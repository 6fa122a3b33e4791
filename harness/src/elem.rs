//! Element types: every kind of fixed-length value stored in the objects under test, driven through `u64`.
use crate::galloc::user;
use crate::spec::{dyn_of, DynArr, Dyn};
use crate::tok::{Mark, ZMark, Tok, TokA, TokH, TokS, ZTok};
use std::mem::MaybeUninit;
use varlen::array::{Array, ArrayLen};
use varlen::array_init::{ArrayInitializer, CloneFrom, CopyFrom, FillWithDefault};
use varlen::prelude::*;

pub trait Elem: Sized + Unpin + 'static {
    const NAME: &'static str;
    /// Number of registered tokens in one value.
    const TOKS: usize = 0;
    /// Number of counted creations and clones when one value is made or cloned.
    const EVENTS: usize = Self::TOKS;
    const CLONE: bool = false;
    const COPY: bool = false;
    fn mk(x: u64) -> Self;
    fn get(&self) -> u64;
    /// `mk(x).get() == norm(x)`
    fn norm(x: u64) -> u64;
    fn set(&mut self, x: u64) {
        *self = Self::mk(x)
    }
    /// Copies from a slice (only for `Copy` types).
    fn arr_copy(_src: Vec<Self>) -> Option<DynArr<Self>> {
        None
    }
    fn arr_clone(_src: Vec<Self>) -> Option<DynArr<Self>> {
        None
    }
    /// All elements default (only if `Default`); the value of the default is `dflt()`.
    fn arr_default() -> Option<DynArr<Self>> {
        None
    }
    fn dflt() -> u64 {
        0
    }
    /// `Array::try_copy`
    fn try_copy<L: crate::spec::LenT>(_src: &[Self]) -> Option<Option<Dyn<'_, Array<Self, L>>>> {
        None
    }
    fn try_clone_from<L: crate::spec::LenT>(_src: &[Self]) -> Option<Option<Dyn<'_, Array<Self, L>>>> {
        None
    }
    fn copy_all<L: crate::spec::LenT>(_src: &[Self]) -> Option<Dyn<'_, Array<Self, L>>> {
        None
    }
    fn clone_all<L: crate::spec::LenT>(_src: &[Self]) -> Option<Dyn<'_, Array<Self, L>>> {
        None
    }
    fn arr_vclone<L: crate::spec::LenT>(_a: &Array<Self, L>) -> Option<Dyn<'_, Array<Self, L>>> {
        None
    }
    fn arr_vcopy<L: crate::spec::LenT>(_a: &Array<Self, L>) -> Option<Dyn<'_, Array<Self, L>>> {
        None
    }
    fn fix_vclone(_a: &FixedLen<Self>) -> Option<Dyn<'_, FixedLen<Self>>> {
        None
    }
    fn fix_vcopy(_a: &FixedLen<Self>) -> Option<Dyn<'_, FixedLen<Self>>> {
        None
    }
    /// `clone_from` into `d`, or `clone`.
    fn fix_bclone(_d: Option<&mut VBox<FixedLen<Self>>>, _a: &VBox<FixedLen<Self>>) -> Option<VBox<FixedLen<Self>>> {
        panic!("harness: not cloneable")
    }
    fn arr_bclone<L: crate::spec::LenT>(_d: Option<&mut VBox<Array<Self, L>>>, _a: &VBox<Array<Self, L>>) -> Option<VBox<Array<Self, L>>> {
        panic!("harness: not cloneable")
    }
}

pub fn via<T: 'static>(src: Vec<T>, f: impl Fn(&[T], &mut [MaybeUninit<T>]) + 'static) -> DynArr<T> {
    DynArr::new(move |dst| f(&src, dst))
}

macro_rules! clone_caps {
    () => {
        const CLONE: bool = true;
        fn fix_bclone(d: Option<&mut VBox<FixedLen<Self>>>, a: &VBox<FixedLen<Self>>) -> Option<VBox<FixedLen<Self>>> {
            crate::spec::cloned(d, a)
        }
        fn arr_bclone<L: crate::spec::LenT>(d: Option<&mut VBox<Array<Self, L>>>, a: &VBox<Array<Self, L>>) -> Option<VBox<Array<Self, L>>> {
            crate::spec::cloned(d, a)
        }
        fn arr_clone(src: Vec<Self>) -> Option<DynArr<Self>> {
            Some(via(src, |s, d| CloneFrom(s).initialize(d)))
        }
        fn try_clone_from<L: crate::spec::LenT>(src: &[Self]) -> Option<Option<Dyn<'_, Array<Self, L>>>> {
            Some(Array::<Self, L>::try_clone_from_slice(src).map(|i| dyn_of(i)))
        }
        fn clone_all<L: crate::spec::LenT>(src: &[Self]) -> Option<Dyn<'_, Array<Self, L>>> {
            L::clone_all(src)
        }
        fn arr_vclone<L: crate::spec::LenT>(a: &Array<Self, L>) -> Option<Dyn<'_, Array<Self, L>>> {
            Some(dyn_of(a.vclone()))
        }
        fn fix_vclone(a: &FixedLen<Self>) -> Option<Dyn<'_, FixedLen<Self>>> {
            Some(dyn_of(a.vclone()))
        }
    };
}
macro_rules! copy_caps {
    () => {
        const COPY: bool = true;
        fn arr_copy(src: Vec<Self>) -> Option<DynArr<Self>> {
            Some(via(src, |s, d| CopyFrom(s).initialize(d)))
        }
        fn try_copy<L: crate::spec::LenT>(src: &[Self]) -> Option<Option<Dyn<'_, Array<Self, L>>>> {
            Some(Array::<Self, L>::try_copy(src).map(|i| dyn_of(i)))
        }
        fn copy_all<L: crate::spec::LenT>(src: &[Self]) -> Option<Dyn<'_, Array<Self, L>>> {
            L::copy_all(src)
        }
        fn arr_vcopy<L: crate::spec::LenT>(a: &Array<Self, L>) -> Option<Dyn<'_, Array<Self, L>>> {
            Some(dyn_of(a.vcopy()))
        }
        fn fix_vcopy(a: &FixedLen<Self>) -> Option<Dyn<'_, FixedLen<Self>>> {
            Some(dyn_of(a.vcopy()))
        }
    };
}
macro_rules! default_caps {
    () => {
        fn arr_default() -> Option<DynArr<Self>> {
            Some(DynArr::new(|d| FillWithDefault.initialize(d)))
        }
    };
}

macro_rules! elem_int {
    ($($t:ty)*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            fn mk(x: u64) -> Self { x as $t }
            fn get(&self) -> u64 { *self as u64 }
            fn norm(x: u64) -> u64 { x as $t as u64 }
            clone_caps!();
            copy_caps!();
            default_caps!();
        }
    )*}
}
elem_int!(u8 u16 u32 u64 usize i16 i64);
impl Elem for u128 {
    const NAME: &'static str = "u128";
    fn mk(x: u64) -> Self {
        (x as u128) | ((!x as u128) << 64)
    }
    fn get(&self) -> u64 {
        let (lo, hi) = (*self as u64, (*self >> 64) as u64);
        if hi == !lo || *self == 0 {
            lo
        } else {
            !0xBAD
        }
    }
    fn norm(x: u64) -> u64 {
        x
    }
    clone_caps!();
    copy_caps!();
    default_caps!();
}
impl Elem for () {
    const NAME: &'static str = "()";
    fn mk(_: u64) -> Self {}
    fn get(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
    clone_caps!();
    copy_caps!();
    default_caps!();
}
impl Elem for bool {
    const NAME: &'static str = "bool";
    fn mk(x: u64) -> Self {
        x & 1 == 1
    }
    fn get(&self) -> u64 {
        // Read the byte, so that an invalid value is seen rather than assumed away.
        unsafe { *(self as *const bool as *const u8) as u64 }
    }
    fn norm(x: u64) -> u64 {
        x & 1
    }
    clone_caps!();
    copy_caps!();
    default_caps!();
}
impl Elem for char {
    const NAME: &'static str = "char";
    fn mk(x: u64) -> Self {
        char::from_u32((x % 0xD800) as u32).unwrap()
    }
    fn get(&self) -> u64 {
        *self as u64
    }
    fn norm(x: u64) -> u64 {
        x % 0xD800
    }
    clone_caps!();
    copy_caps!();
    default_caps!();
}
impl Elem for [u8; 3] {
    const NAME: &'static str = "[u8;3]";
    fn mk(x: u64) -> Self {
        [x as u8, (x >> 8) as u8, (x >> 16) as u8]
    }
    fn get(&self) -> u64 {
        self[0] as u64 | (self[1] as u64) << 8 | (self[2] as u64) << 16
    }
    fn norm(x: u64) -> u64 {
        x & 0xff_ffff
    }
    clone_caps!();
    copy_caps!();
    default_caps!();
}
impl Elem for [u32; 5] {
    const NAME: &'static str = "[u32;5]";
    fn mk(x: u64) -> Self {
        let (a, b) = (x as u32, (x >> 32) as u32);
        [a, b, a ^ b, !a, !b]
    }
    fn get(&self) -> u64 {
        let (a, b) = (self[0], self[1]);
        if *self != [0; 5] && (self[2] != a ^ b || self[3] != !a || self[4] != !b) {
            return !0xBAD;
        }
        a as u64 | (b as u64) << 32
    }
    fn norm(x: u64) -> u64 {
        x
    }
    clone_caps!();
    copy_caps!();
    default_caps!();
}
/// Option with a niche.
impl Elem for Option<std::num::NonZeroU16> {
    const NAME: &'static str = "Option<NonZeroU16>";
    fn mk(x: u64) -> Self {
        std::num::NonZeroU16::new(x as u16)
    }
    fn get(&self) -> u64 {
        self.map(|x| x.get() as u64).unwrap_or(0)
    }
    fn norm(x: u64) -> u64 {
        x as u16 as u64
    }
    clone_caps!();
    copy_caps!();
    default_caps!();
}
macro_rules! elem_wrap {
    ($(#[$a:meta])* $name:ident, $inner:ty) => {
        $(#[$a])*
        #[derive(Clone, Copy, Default)]
        pub struct $name(pub $inner);
        impl Elem for $name {
            const NAME: &'static str = stringify!($name);
            fn mk(x: u64) -> Self { $name(<$inner as Elem>::mk(x)) }
            fn get(&self) -> u64 { self.0.get() }
            fn norm(x: u64) -> u64 { <$inner as Elem>::norm(x) }
            clone_caps!();
            copy_caps!();
            default_caps!();
        }
    }
}
elem_wrap!(#[repr(align(16))] A16, u64);
elem_wrap!(#[repr(align(64))] A64, u8);
elem_wrap!(#[repr(align(256))] A256, u16);
elem_wrap!(#[repr(align(4096))] A4096, u32);
elem_wrap!(#[repr(align(131072))] A128K, u64);
elem_wrap!(#[repr(align(8))] ZA8, ());
elem_wrap!(#[repr(align(64))] ZA64, ());
elem_wrap!(#[repr(C, packed)] P9, [u8; 3]);

/// Clone but not Copy, no destructor.
#[derive(Clone)]
pub struct NoCopy(u32);
impl Elem for NoCopy {
    const NAME: &'static str = "NoCopy";
    fn mk(x: u64) -> Self {
        NoCopy(x as u32)
    }
    fn get(&self) -> u64 {
        self.0 as u64
    }
    fn norm(x: u64) -> u64 {
        x as u32 as u64
    }
    clone_caps!();
}
/// Neither Clone nor Default.
pub struct Plain(u16, u8);
impl Elem for Plain {
    const NAME: &'static str = "Plain";
    fn mk(x: u64) -> Self {
        Plain(x as u16, 0x5A)
    }
    fn get(&self) -> u64 {
        if self.1 != 0x5A {
            return !0xBAD;
        }
        self.0 as u64
    }
    fn norm(x: u64) -> u64 {
        x as u16 as u64
    }
}

macro_rules! elem_tok {
    ($t:ty, $name:expr) => {
        impl Elem for $t {
            const NAME: &'static str = $name;
            const TOKS: usize = 1;
            fn mk(x: u64) -> Self {
                <$t>::new(x)
            }
            fn get(&self) -> u64 {
                self.val()
            }
            fn norm(x: u64) -> u64 {
                x
            }
            fn set(&mut self, x: u64) {
                // Half of the writes replace the token, half change it in place.
                if x & 1 == 0 {
                    *self = Self::mk(x)
                } else {
                    self.poke(x)
                }
            }
            clone_caps!();
            default_caps!();
        }
    };
}
elem_tok!(Tok, "Tok");
elem_tok!(TokS, "TokS");
elem_tok!(TokH, "TokH");
elem_tok!(TokA, "TokA");
impl Elem for ZTok {
    const NAME: &'static str = "ZTok";
    const TOKS: usize = 1;
    fn mk(_: u64) -> Self {
        ZTok::new()
    }
    fn get(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
    clone_caps!();
    default_caps!();
}

/// A borrowing value.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Lt<'a>(pub &'a u8);
static BYTES: [u8; 256] = {
    let mut b = [0; 256];
    let mut i = 0;
    while i < 256 {
        b[i] = i as u8;
        i += 1;
    }
    b
};
impl Elem for Lt<'static> {
    const NAME: &'static str = "Lt";
    fn mk(x: u64) -> Self {
        Lt(&BYTES[x as u8 as usize])
    }
    fn get(&self) -> u64 {
        *self.0 as u64
    }
    fn norm(x: u64) -> u64 {
        x as u8 as u64
    }
    clone_caps!();
    copy_caps!();
}
fn twice(x: u32) -> u32 {
    x.wrapping_mul(2)
}
fn next(x: u32) -> u32 {
    x.wrapping_add(1)
}
/// A function pointer.
impl Elem for fn(u32) -> u32 {
    const NAME: &'static str = "fn(u32)->u32";
    fn mk(x: u64) -> Self {
        if x & 1 == 1 {
            twice
        } else {
            next
        }
    }
    fn get(&self) -> u64 {
        match self(10) {
            20 => 1,
            11 => 0,
            _ => u64::MAX,
        }
    }
    fn norm(x: u64) -> u64 {
        x & 1
    }
    clone_caps!();
    copy_caps!();
}
impl Elem for Mark {
    const NAME: &'static str = "Mark";
    const EVENTS: usize = 1;
    fn mk(x: u64) -> Self {
        Mark::new(x)
    }
    fn get(&self) -> u64 {
        self.val()
    }
    fn norm(x: u64) -> u64 {
        x
    }
    clone_caps!();
    default_caps!();
}
impl Elem for ZMark {
    const NAME: &'static str = "ZMark";
    const EVENTS: usize = 1;
    fn mk(_: u64) -> Self {
        ZMark::new()
    }
    fn get(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
    clone_caps!();
    default_caps!();
}

/// A heap-owning value with a token: `String` next to `Tok`.
pub struct Owning {
    s: Box<u64>,
    t: Tok,
}
impl Clone for Owning {
    fn clone(&self) -> Self {
        user(|| Owning { s: self.s.clone(), t: self.t.clone() })
    }
}
impl Elem for Owning {
    const NAME: &'static str = "Owning";
    const TOKS: usize = 1;
    fn mk(x: u64) -> Self {
        user(|| Owning { s: Box::new(x.rotate_left(7)), t: Tok::new(x) })
    }
    fn get(&self) -> u64 {
        let x = self.t.val();
        if *self.s != x.rotate_left(7) {
            return !0xBAD;
        }
        x
    }
    fn norm(x: u64) -> u64 {
        x
    }
    fn set(&mut self, x: u64) {
        user(|| *self = Self::mk(x))
    }
    clone_caps!();
}

// ---------------------------------------------------------------- types of controlling fields

/// Two bytes.
pub struct Pair {
    pub a: u8,
    pub b: u8,
}
impl Pair {
    pub const fn sum(&self) -> usize {
        self.a as usize + self.b as usize
    }
}
impl Elem for Pair {
    const NAME: &'static str = "Pair";
    fn mk(x: u64) -> Self {
        Pair { a: x as u8, b: (x >> 8) as u8 }
    }
    fn get(&self) -> u64 {
        self.a as u64 | (self.b as u64) << 8
    }
    fn norm(x: u64) -> u64 {
        x & 0xffff
    }
}
/// An enumeration.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    None,
    One,
    Many,
}
impl Kind {
    pub const fn count(&self) -> usize {
        match self {
            Kind::None => 0,
            Kind::One => 1,
            Kind::Many => 7,
        }
    }
}
impl Elem for Kind {
    const NAME: &'static str = "Kind";
    fn mk(x: u64) -> Self {
        match x % 3 {
            0 => Kind::None,
            1 => Kind::One,
            _ => Kind::Many,
        }
    }
    fn get(&self) -> u64 {
        *self as u64
    }
    fn norm(x: u64) -> u64 {
        x % 3
    }
}
impl Elem for Option<u8> {
    const NAME: &'static str = "Option<u8>";
    fn mk(x: u64) -> Self {
        if x & 0x100 != 0 {
            Some(x as u8)
        } else {
            None
        }
    }
    fn get(&self) -> u64 {
        match self {
            Some(x) => *x as u64 | 0x100,
            None => 0,
        }
    }
    fn norm(x: u64) -> u64 {
        if x & 0x100 != 0 {
            x & 0x1ff
        } else {
            0
        }
    }
}
impl Elem for [u8; 2] {
    const NAME: &'static str = "[u8;2]";
    fn mk(x: u64) -> Self {
        [x as u8, (x >> 8) as u8]
    }
    fn get(&self) -> u64 {
        self[0] as u64 | (self[1] as u64) << 8
    }
    fn norm(x: u64) -> u64 {
        x & 0xffff
    }
}
/// A length next to a token: replacing it drops something, and once destroyed it is another length.
pub struct TokLen {
    pub n: u16,
    pub t: Tok,
}
impl TokLen {
    pub const fn n(&self) -> usize {
        self.n as usize
    }
}
impl Drop for TokLen {
    fn drop(&mut self) {
        // Volatile, so that no optimizer takes it for a dead store.
        unsafe { std::ptr::write_volatile(&mut self.n, self.n ^ 0x25) };
    }
}
impl Elem for TokLen {
    const NAME: &'static str = "TokLen";
    const TOKS: usize = 1;
    fn mk(x: u64) -> Self {
        TokLen { n: x as u16, t: Tok::new(x >> 16) }
    }
    fn get(&self) -> u64 {
        self.n as u64 | self.t.val() << 16
    }
    fn norm(x: u64) -> u64 {
        x
    }
}
