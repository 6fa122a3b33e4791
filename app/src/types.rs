//! The types under test.
use vh::elem::*;
use vh::full_caps;
use vh::galloc::user;
use vh::objs::{ops, TypeOps};
use vh::spec::*;
use vh::tok::*;
use vh::vassert;
use std::pin::Pin;
use varlen::array::Array;
use varlen::prelude::*;
use varlen::str::Str;

/// Spec of a newtype: that of the wrapped type, at the same address.
#[macro_export]
macro_rules! newtype_spec {
    ([$($gen:tt)*] $outer:ty, $inner:ty, $init:ident, $refm:ident, $mutm:ident) => {
        impl<$($gen)*> Spec for $outer {
            const RALIGN: usize = <$inner as Spec>::RALIGN;
            const RDROP: bool = <$inner as Spec>::RDROP;
            const HAS_CTL: bool = <$inner as Spec>::HAS_CTL;
            fn name() -> String { format!("{}({})", stringify!($init), <$inner as Spec>::name()) }
            fn gen(g: &mut Gen) -> Val { <$inner as Spec>::gen(g) }
            fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) { <$inner as Spec>::place(v, at, lv) }
            fn init(v: &Val, g: &mut Gen) -> Dyn<'static, Self> {
                // Wrapped initializers may be of any kind.
                dyn_of($init(make::<$inner>(v, g)))
            }
            fn huge(g: &mut Gen) -> Option<Dyn<'static, Self>> {
                Some(dyn_of($init(<$inner as Spec>::huge(g)?)).kind("huge"))
            }
            fn read(&self, o: &mut Obs) -> Val {
                let i = self.$refm();
                vassert!(["C23", "C02", "C06"], i as *const $inner as usize == self as *const Self as usize, "{}: inner value is elsewhere", Self::name());
                vassert!(["C23"], std::mem::size_of::<Self>() == std::mem::size_of::<$inner>(), "{}: other header size", Self::name());
                i.read(o)
            }
            fn mutate(self: Pin<&mut Self>, v: &mut Val, g: &mut Gen) {
                let a = self.as_ref().get_ref() as *const Self as usize;
                let m = self.$mutm();
                vassert!(["C23", "C16", "C02"], m.as_ref().get_ref() as *const $inner as usize == a, "{}: mutable inner value is elsewhere", Self::name());
                <$inner as Spec>::mutate(m, v, g)
            }
            fn toks(v: &Val) -> usize { <$inner as Spec>::toks(v) }
            fn events(v: &Val) -> usize { <$inner as Spec>::events(v) }
            fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut Gen) -> Ctl { <$inner as Spec>::ctl(self.$mutm(), v, g) }
        }
    };
}

define_varlen_newtype! {
    #[repr(transparent)]
    /// Text.
    pub struct NtStr(Str);
    with init: pub struct NtStrInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
newtype_spec!([] NtStr, Str, NtStrInit, inner, inner_mut);
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NtArr(Array<Tok, u16>);
    with init: pub struct NtArrInit<_>(_);
    with inner_ref: pub(crate) fn arr(&self) -> &_;
    with inner_mut: pub(crate) fn arr_mut(self: _) -> _;
}
newtype_spec!([] NtArr, Array<Tok, u16>, NtArrInit, arr, arr_mut);
impl<'s> VClone<'s> for NtArr {
    type Cloner = NtArrInit<<Array<Tok, u16> as VClone<'s>>::Cloner>;
    fn vclone(&'s self) -> Self::Cloner {
        NtArrInit(self.arr().vclone())
    }
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NtTup(pub Tup3<FixedLen<TokS>, Array<u16, u8>, FixedLen<A16>>);
    with init: pub struct NtTupInit<_>(pub _);
    with inner_ref: pub fn inn(&self) -> &_;
    with inner_mut: pub fn inn_mut(self: _) -> _;
}
newtype_spec!([] NtTup, Tup3<FixedLen<TokS>, Array<u16, u8>, FixedLen<A16>>, NtTupInit, inn, inn_mut);
// A newtype of a newtype.
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NtNt(NtTup);
    with init: struct NtNtInit<_>(_);
    with inner_ref: fn one(&self) -> &_;
    with inner_mut: fn one_mut(self: _) -> _;
}
newtype_spec!([] NtNt, NtTup, NtNtInit, one, one_mut);
// Generic.
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NtGen<(A: Elem), (V: Spec = Str)>(Tup2<Array<A, u32>, V>);
    with signature: impl<(A: Elem), (V: Spec)> NtGen<(A), (V)> { _ }
    with init: pub struct NtGenInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
newtype_spec!([A: Elem, V: Spec] NtGen<A, V>, Tup2<Array<A, u32>, V>, NtGenInit, inner, inner_mut);
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NtFix(FixedLen<TokH>);
    with init: struct NtFixInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
newtype_spec!([] NtFix, FixedLen<TokH>, NtFixInit, inner, inner_mut);
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NtMac(crate::structs::Quickbird);
    with init: struct NtMacInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
newtype_spec!([] NtMac, crate::structs::Quickbird, NtMacInit, inner, inner_mut);

/// An initializer declared as a wrapper of another one.
pub struct WrapInit(pub varlen::array::SizedInit<DynArr<u16>>);
impl_initializer_as_newtype! {
    impl Initializer<Array<u16>> for WrapInit { _ }
}
pub struct WrapGen<E: Elem, V: Spec>(pub tup2::Init<Dyn<'static, FixedLen<E>>, Dyn<'static, V>>);
impl_initializer_as_newtype! {
    impl<(E: Elem), (V: Spec)> Initializer<Tup2<FixedLen<E>, V>> for WrapGen<E, V> { _ }
}
macro_rules! wrap_spec {
    // A transparent holder type whose initializer goes through the wrapper.
    ($name:ident, $init:ident, $inner:ty, |$v:ident, $g:ident| $mk:expr) => {
        define_varlen_newtype! {
            #[repr(transparent)]
            pub struct $name($inner);
            with init: pub struct $init<_>(_);
            with inner_ref: fn inner(&self) -> &_;
            with inner_mut: fn inner_mut(self: _) -> _;
        }
        impl Spec for $name {
            const RALIGN: usize = <$inner as Spec>::RALIGN;
            const RDROP: bool = <$inner as Spec>::RDROP;
            fn name() -> String { format!("{}({})", stringify!($init), <$inner as Spec>::name()) }
            fn gen(g: &mut Gen) -> Val { <$inner as Spec>::gen(g) }
            fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) { <$inner as Spec>::place(v, at, lv) }
            fn init($v: &Val, $g: &mut Gen) -> Dyn<'static, Self> { dyn_of($init($mk)) }
            fn read(&self, o: &mut Obs) -> Val { self.inner().read(o) }
            fn mutate(self: Pin<&mut Self>, v: &mut Val, g: &mut Gen) { <$inner as Spec>::mutate(self.inner_mut(), v, g) }
            fn toks(v: &Val) -> usize { <$inner as Spec>::toks(v) }
            fn events(v: &Val) -> usize { <$inner as Spec>::events(v) }
        }
    };
}
wrap_spec!(NtWrap, NtWrapInit, Array<u16>, |v, g| {
    let n = v.a().len();
    WrapInit(varlen::array::SizedInit(n, arr_init::<u16>(v.a(), g)))
});
wrap_spec!(NtWrapG, NtWrapGInit, Tup2<FixedLen<Tok>, Str<u16>>, |v, g| {
    let t = v.t();
    WrapGen(tup2::Init(make::<FixedLen<Tok>>(&t[0], g), make::<Str<u16>>(&t[1], g)))
});

/// All types; the smaller `deep` is, the fewer.
pub fn builtin() -> Vec<TypeOps> {
    user(|| {
        type F<E> = FixedLen<E>;
        #[allow(unused_mut)]
        let mut v = vec![
            ops::<Str>(None, &["str"]),
            ops::<Str<u8>>(None, &["str"]),
            ops::<Array<Tok, usize>>(None, &[]),
            ops::<Array<u8, u8>>(None, &[]),
            ops::<Tup2<F<u32>, Str>>(full_caps!(Tup2<F<u32>, Str>, copy), &["str"]),
            ops::<Tup3<F<Tok>, Array<TokS, u16>, Str<u8>>>(full_caps!(Tup3<F<Tok>, Array<TokS, u16>, Str<u8>>, clone), &[]),
            ops::<F<Tok>>(None, &[]),
            ops::<F<u8>>(None, &[]),
            ops::<F<u64>>(None, &[]),
            ops::<F<()>>(None, &[]),
            ops::<F<ZTok>>(None, &[]),
            ops::<F<ZA64>>(None, &[]),
            ops::<F<A64>>(None, &[]),
            ops::<F<Owning>>(None, &[]),
            ops::<F<u128>>(None, &[]),
            ops::<Str<u16>>(None, &["str"]),
            ops::<Str<u32>>(None, &["str"]),
            ops::<Str<u64>>(None, &["str"]),
            ops::<Array<u64, u8>>(None, &[]),
            ops::<Array<u16, u32>>(None, &[]),
            ops::<Array<(), usize>>(None, &[]),
            ops::<Array<ZTok, u8>>(None, &[]),
            ops::<Array<ZTok, usize>>(None, &[]),
            ops::<Array<ZA8, u16>>(None, &[]),
            ops::<Array<[u8; 3], usize>>(None, &[]),
            ops::<Array<P9, u16>>(None, &[]),
            ops::<Array<TokA, u8>>(None, &[]),
            ops::<Array<A256, u16>>(None, &[]),
            ops::<Array<Plain, u64>>(None, &[]),
            ops::<Array<NoCopy, u32>>(None, &[]),
            ops::<Array<Mark, u16>>(None, &[]),
            ops::<Array<ZMark, u8>>(None, &[]),
            ops::<F<Mark>>(None, &[]),
            ops::<Tup3<F<Mark>, Array<Mark, u8>, Str<u16>>>(full_caps!(Tup3<F<Mark>, Array<Mark, u8>, Str<u16>>, clone), &[]),
            ops::<Array<Owning, u8>>(None, &[]),
            ops::<Array<bool, u8>>(None, &[]),
            ops::<Array<char, u16>>(None, &[]),
            ops::<Array<[u32; 5], usize>>(None, &[]),
            ops::<Tup2<F<u8>, Array<u64, u8>>>(full_caps!(Tup2<F<u8>, Array<u64, u8>>, copy), &[]),
            ops::<Tup2<Array<u8, u8>, F<TokA>>>(full_caps!(Tup2<Array<u8, u8>, F<TokA>>, clone), &[]),
            ops::<Tup2<F<()>, F<ZTok>>>(full_caps!(Tup2<F<()>, F<ZTok>>, clone), &[]),
            ops::<Tup2<F<ZA8>, F<()>>>(full_caps!(Tup2<F<ZA8>, F<()>>, clone), &[]),
            ops::<Tup3<F<()>, F<ZA64>, F<ZTok>>>(None, &[]),
            ops::<Tup2<F<()>, Array<Tok, u16>>>(full_caps!(Tup2<F<()>, Array<Tok, u16>>, clone), &[]),
            ops::<Tup3<Array<u8, u8>, F<A64>, Array<TokH, u16>>>(full_caps!(Tup3<Array<u8, u8>, F<A64>, Array<TokH, u16>>, clone), &[]),
            ops::<Tup4<Str<u8>, F<u16>, Array<TokS, u8>, F<Tok>>>(full_caps!(Tup4<Str<u8>, F<u16>, Array<TokS, u8>, F<Tok>>, clone), &[]),
            ops::<Tup4<F<u8>, F<u16>, F<u32>, F<u64>>>(full_caps!(Tup4<F<u8>, F<u16>, F<u32>, F<u64>>, copy), &[]),
            ops::<Tup5<F<u64>, Str<u8>, F<Tok>, Array<u16, u8>, Array<ZTok, u16>>>(full_caps!(Tup5<F<u64>, Str<u8>, F<Tok>, Array<u16, u8>, Array<ZTok, u16>>, clone), &[]),
            ops::<Tup2<Tup2<F<u8>, Str<u16>>, Tup3<F<TokH>, Array<u32, u8>, F<u8>>>>(full_caps!(Tup2<Tup2<F<u8>, Str<u16>>, Tup3<F<TokH>, Array<u32, u8>, F<u8>>>, clone), &[]),
            ops::<Tup5<Str, Str<u8>, Tup2<Str<u16>, F<u8>>, Str<u32>, Array<u8>>>(full_caps!(Tup5<Str, Str<u8>, Tup2<Str<u16>, F<u8>>, Str<u32>, Array<u8>>, copy), &["str"]),
            ops::<Tup2<F<A4096>, Array<u8, u8>>>(full_caps!(Tup2<F<A4096>, Array<u8, u8>>, copy), &[]),
            ops::<NtStr>(None, &["newtype", "str"]),
            ops::<NtArr>(full_caps!(NtArr, clone), &["newtype"]),
            ops::<NtTup>(None, &["newtype"]),
            ops::<NtNt>(None, &["newtype"]),
            ops::<NtGen<u8>>(None, &["newtype"]),
            ops::<NtGen<Tok, NtNt>>(None, &["newtype"]),
            ops::<NtFix>(None, &["newtype"]),
            ops::<NtMac>(None, &["newtype", "macro"]),
            ops::<Tup2<NtArr, NtStr>>(None, &["newtype"]),
            ops::<Tup3<F<u8>, NtNt, NtGen<A16, NtStr>>>(None, &["newtype"]),
            ops::<NtWrap>(None, &["newtype"]),
            ops::<NtWrapG>(None, &["newtype"]),
        ];
        // Not for the interpreter, because of the size.
        #[cfg(not(miri))]
        v.push(ops::<Tup2<F<A128K>, Array<u8, u8>>>(full_caps!(Tup2<F<A128K>, Array<u8, u8>>, copy), &[]));
        v
    })
}
pub fn all() -> Vec<TypeOps> {
    let mut v = builtin();
    v.extend(crate::structs::types());
    v
}
