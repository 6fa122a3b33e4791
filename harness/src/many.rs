//! Sequences, arenas and arrays with many elements: what the histories, with their few and small objects, do not reach
//! (numbers of elements, positions and lengths beyond 8 and 16 bits).
use crate::ctx::{self, Caught};
use crate::elem::Elem;
use crate::galloc::{self, lib, user};
use crate::rng::{mix, Rng};
use crate::run::Env;
use crate::spec::{Erased, LenT};
use crate::tok::{self, Tok, TokS, ZTok};
use crate::vassert;
use bumpalo::Bump;
use std::mem::{align_of, size_of};
use std::pin::Pin;
use std::ptr::NonNull;
use varlen::array::{Array, SizedInit};
use varlen::array_init::{CloneFrom, CopyFrom, FillSequentially, FillWithDefault, FromIterPrefix};
use varlen::prelude::*;
use varlen::seq::{CheckedIndexing, Indexing, UncheckedIndexing};
use varlen::{Initializer, Layout as _};

/// Type-erased initializer that may borrow.
pub struct Bi<'a, T: VarLen>(Box<dyn Erased<T> + 'a>);
unsafe impl<'a, T: VarLen> Initializer<T> for Bi<'a, T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        self.0.lay()
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        self.0.ini(dst, layout)
    }
}
fn bi<'a, T: VarLen>(i: impl Initializer<T> + 'a) -> Bi<'a, T> {
    user(|| Bi(Box::new(i)))
}

/// A kind of element. A value is a number: its lowest byte determines the shape, the rest the contents.
pub trait Kind: 'static {
    type T: VarLen + 'static;
    const NAME: &'static str;
    /// Properties for which this kind is used although they concern only some types.
    const FOR: &'static [&'static str] = &[];
    /// Those that every failure with this kind concerns.
    const ALSO: &'static [&'static str] = &[];
    const ALIGN: usize;
    fn size(v: u64) -> usize;
    fn toks(_v: u64) -> i64 {
        0
    }
    fn mk(v: u64) -> Bi<'static, Self::T>;
    fn ok(t: &Self::T, v: u64) -> bool;
    /// Changes everything changeable to the contents of `v`, which has the same shape.
    fn set(t: Pin<&mut Self::T>, v: u64);
    /// An initializer that clones.
    fn clone(_t: &Self::T) -> Option<Bi<'_, Self::T>> {
        None
    }
    fn copy(_t: &Self::T) -> Option<Bi<'_, Self::T>> {
        None
    }
    fn bclone(_b: &VBox<Self::T>) -> Option<VBox<Self::T>> {
        None
    }
}
/// What determines the shape.
fn lo(v: u64) -> u64 {
    v & 0xff
}
fn up(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}
fn ch(v: u64, i: usize) -> u8 {
    b'a' + (mix(v, i as u64) % 26) as u8
}
fn text(v: u64) -> String {
    (0..(lo(v) % 5) as usize).map(|i| ch(v, i) as char).collect()
}
fn small<E: Elem>(v: u64, n: usize) -> FillSequentially<impl FnMut(usize) -> E> {
    FillSequentially(move |i| user(|| E::mk(mix(v, i as u64))))
}
fn same<E: Elem>(a: &[E], v: u64, n: usize) -> bool {
    a.len() == n && a.iter().enumerate().all(|(i, x)| x.get() == E::norm(mix(v, i as u64)))
}
fn put<E: Elem>(a: &mut [E], v: u64) {
    for (i, x) in a.iter_mut().enumerate() {
        x.set(mix(v, i as u64))
    }
}

macro_rules! cloneable {
    () => {
        fn clone(t: &Self::T) -> Option<Bi<'_, Self::T>> {
            use varlen::VClone;
            Some(bi(t.vclone()))
        }
        fn bclone(b: &VBox<Self::T>) -> Option<VBox<Self::T>> {
            Some(b.clone())
        }
    };
}
macro_rules! copyable {
    () => {
        fn copy(t: &Self::T) -> Option<Bi<'_, Self::T>> {
            use varlen::VCopy;
            Some(bi(t.vcopy()))
        }
    };
}

struct KStr8;
impl Kind for KStr8 {
    type T = Str<u8>;
    const NAME: &'static str = "Str<u8>";
    const FOR: &'static [&'static str] = &["C19", "C23"];
    const ALIGN: usize = 1;
    fn size(v: u64) -> usize {
        1 + (lo(v) % 5) as usize
    }
    fn mk(v: u64) -> Bi<'static, Self::T> {
        struct Text(String);
        unsafe impl Initializer<Str<u8>> for Text {
            fn calculate_layout_cautious(&self) -> Option<<Str<u8> as VarLen>::Layout> {
                Str::<u8>::try_copy(&self.0).unwrap().calculate_layout_cautious()
            }
            unsafe fn initialize(self, dst: NonNull<Str<u8>>, l: <Str<u8> as VarLen>::Layout) {
                Str::<u8>::try_copy(&self.0).unwrap().initialize(dst, l);
                user(|| drop(self))
            }
        }
        user(|| bi(Text(text(v))))
    }
    fn ok(t: &Self::T, v: u64) -> bool {
        std::str::from_utf8(t.as_bytes()).is_ok() && **t == *text(v)
    }
    fn set(t: Pin<&mut Self::T>, v: u64) {
        let s = t.mut_slice();
        for (i, b) in unsafe { s.as_bytes_mut() }.iter_mut().enumerate() {
            *b = ch(v, i)
        }
    }
    cloneable!();
    copyable!();
}
struct KByte;
impl Kind for KByte {
    type T = FixedLen<u8>;
    const NAME: &'static str = "FixedLen<u8>";
    const ALIGN: usize = 1;
    fn size(_: u64) -> usize {
        1
    }
    fn mk(v: u64) -> Bi<'static, Self::T> {
        bi(FixedLen(ch(v, 0)))
    }
    fn ok(t: &Self::T, v: u64) -> bool {
        t.0 == ch(v, 0)
    }
    fn set(mut t: Pin<&mut Self::T>, v: u64) {
        t.0 = ch(v, 0)
    }
    cloneable!();
    copyable!();
}
struct KZst;
impl Kind for KZst {
    type T = FixedLen<ZTok>;
    const NAME: &'static str = "FixedLen<ZTok>";
    const ALIGN: usize = 1;
    fn size(_: u64) -> usize {
        0
    }
    fn toks(_: u64) -> i64 {
        1
    }
    fn mk(_: u64) -> Bi<'static, Self::T> {
        bi(FixedLen(ZTok::new()))
    }
    fn ok(_: &Self::T, _: u64) -> bool {
        true
    }
    fn set(mut t: Pin<&mut Self::T>, _: u64) {
        t.0 = ZTok::new()
    }
    cloneable!();
}
struct KTok;
impl Kind for KTok {
    type T = FixedLen<Tok>;
    const NAME: &'static str = "FixedLen<Tok>";
    const ALIGN: usize = align_of::<Tok>();
    fn size(_: u64) -> usize {
        size_of::<Tok>()
    }
    fn toks(_: u64) -> i64 {
        1
    }
    fn mk(v: u64) -> Bi<'static, Self::T> {
        bi(FixedLen(Tok::new(v)))
    }
    fn ok(t: &Self::T, v: u64) -> bool {
        t.0.val() == v
    }
    fn set(mut t: Pin<&mut Self::T>, v: u64) {
        t.0 = Tok::new(v)
    }
    cloneable!();
}
struct KToks;
impl Kind for KToks {
    type T = Array<TokS, u8>;
    const NAME: &'static str = "Array<TokS,u8>";
    const ALIGN: usize = align_of::<TokS>();
    fn size(v: u64) -> usize {
        up(1, align_of::<TokS>()) + Self::toks(v) as usize * size_of::<TokS>()
    }
    fn toks(v: u64) -> i64 {
        (lo(v) % 4) as i64
    }
    fn mk(v: u64) -> Bi<'static, Self::T> {
        bi(SizedInit(Self::toks(v) as u8, small::<TokS>(v, 0)))
    }
    fn ok(t: &Self::T, v: u64) -> bool {
        same(&t[..], v, Self::toks(v) as usize)
    }
    fn set(t: Pin<&mut Self::T>, v: u64) {
        put(t.mut_slice(), v)
    }
    cloneable!();
}
struct KTup;
impl Kind for KTup {
    type T = Tup3<FixedLen<u16>, Array<u8, u8>, FixedLen<TokS>>;
    const NAME: &'static str = "Tup3<F<u16>,Array<u8,u8>,F<TokS>>";
    const ALIGN: usize = 4;
    fn size(v: u64) -> usize {
        up(3 + (lo(v) % 7) as usize, 4) + size_of::<TokS>()
    }
    fn toks(_: u64) -> i64 {
        1
    }
    fn mk(v: u64) -> Bi<'static, Self::T> {
        bi(tup3::Init(FixedLen((v >> 8) as u16), SizedInit((lo(v) % 7) as u8, small::<u8>(v, 0)), FixedLen(TokS::new(v))))
    }
    fn ok(t: &Self::T, v: u64) -> bool {
        let r = t.refs();
        r.0 .0 == (v >> 8) as u16 && same(&r.1[..], v, (lo(v) % 7) as usize) && r.2 .0.val() == v
    }
    fn set(t: Pin<&mut Self::T>, v: u64) {
        let mut m = t.muts();
        m.0 .0 = (v >> 8) as u16;
        put(m.1.mut_slice(), v);
        m.2 .0 = TokS::new(v);
    }
    cloneable!();
}
struct KWords;
impl Kind for KWords {
    type T = Array<u64, u16>;
    const NAME: &'static str = "Array<u64,u16>";
    const ALIGN: usize = align_of::<u64>();
    fn size(v: u64) -> usize {
        align_of::<u64>().max(2) + 8 * (lo(v) % 6) as usize
    }
    fn mk(v: u64) -> Bi<'static, Self::T> {
        bi(SizedInit((lo(v) % 6) as u16, small::<u64>(v, 0)))
    }
    fn ok(t: &Self::T, v: u64) -> bool {
        same(&t[..], v, (lo(v) % 6) as usize)
    }
    fn set(t: Pin<&mut Self::T>, v: u64) {
        put(t.mut_slice(), v)
    }
    cloneable!();
    copyable!();
}
#[repr(align(64))]
#[derive(Clone, Copy)]
pub struct Line(u64);
struct KLine;
impl Kind for KLine {
    type T = Tup2<FixedLen<u8>, FixedLen<Line>>;
    const NAME: &'static str = "Tup2<F<u8>,F<Line>>";
    const ALIGN: usize = 64;
    fn size(_: u64) -> usize {
        128
    }
    fn mk(v: u64) -> Bi<'static, Self::T> {
        bi(tup2::Init(FixedLen(ch(v, 1)), FixedLen(Line(v))))
    }
    fn ok(t: &Self::T, v: u64) -> bool {
        t.refs().0 .0 == ch(v, 1) && t.refs().1 .0 .0 == v
    }
    fn set(t: Pin<&mut Self::T>, v: u64) {
        let mut m = t.muts();
        m.0 .0 = ch(v, 1);
        m.1 .0 = Line(v);
    }
    cloneable!();
    copyable!();
}
#[define_varlen]
pub struct ManyS {
    #[controls_layout]
    n: u8,
    #[controls_layout]
    hue: u16,
    tag: TokS,
    #[varlen_array]
    a: [u16; *n as usize],
    #[varlen]
    s: Array<u8, u8>,
    #[varlen_array]
    b: [TokS; *n as usize / 2 + (*hue as usize & 1)],
}
struct KStruct;
impl KStruct {
    fn hue(v: u64) -> u16 {
        (v >> 9) as u16 & !1 | (v >> 7) as u16 & 1
    }
    fn dims(v: u64) -> (usize, usize, usize) {
        ((lo(v) % 6) as usize, (lo(v) % 3) as usize, (lo(v) % 6) as usize / 2 + (lo(v) >> 7) as usize)
    }
}
impl Kind for KStruct {
    type T = ManyS;
    const NAME: &'static str = "struct ManyS";
    const FOR: &'static [&'static str] = &["C17", "C18"];
    const ALSO: &'static [&'static str] = &["C18"];
    const ALIGN: usize = 4;
    fn size(v: u64) -> usize {
        let (n, s, b) = Self::dims(v);
        let a = up(size_of::<(u8, u16, TokS)>(), 2) + 2 * n;
        up(a + 1 + s, 4) + b * size_of::<TokS>()
    }
    fn toks(v: u64) -> i64 {
        1 + Self::dims(v).2 as i64
    }
    fn mk(v: u64) -> Bi<'static, Self::T> {
        let (n, s, _) = Self::dims(v);
        bi(many_s::Init {
            n: n as u8,
            hue: Self::hue(v),
            tag: TokS::new(v),
            a: small::<u16>(v, 0),
            s: SizedInit(s as u8, small::<u8>(v ^ 9, 0)),
            b: small::<TokS>(v ^ 5, 0),
        })
    }
    fn ok(t: &Self::T, v: u64) -> bool {
        let r = t.refs();
        let (n, s, b) = Self::dims(v);
        *r.n as usize == n && *r.hue == Self::hue(v) && r.tag.val() == v && same(r.a, v, n) && same(&r.s[..], v ^ 9, s) && same(r.b, v ^ 5, b)
    }
    fn set(mut t: Pin<&mut Self::T>, v: u64) {
        let (n, _, _) = Self::dims(v);
        // First something that does not fit.
        let bad = t.as_mut().try_set_layout_controllers(many_s::LayoutControllers { n: n as u8, hue: Self::hue(v) ^ 1 });
        vassert!(["C17", "C18"], bad.is_err(), "controlling fields that change a length were accepted");
        let good = t.as_mut().try_set_layout_controllers(many_s::LayoutControllers { n: n as u8, hue: Self::hue(v) });
        vassert!(["C17", "C18"], good.is_ok(), "controlling fields that keep all lengths were refused");
        let mut m = t.muts();
        *m.tag = TokS::new(v);
        put(m.a, v);
        put(m.s.as_mut().mut_slice(), v ^ 9);
        put(m.b, v ^ 5);
    }
}
varlen::define_varlen_newtype! {
    #[repr(transparent)]
    pub struct ManyNt(Tup2<FixedLen<TokS>, Array<u16, u8>>);
    with init: pub struct ManyNtInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
struct KNt;
impl Kind for KNt {
    type T = ManyNt;
    const NAME: &'static str = "newtype(Tup2<F<TokS>,Array<u16,u8>>)";
    const FOR: &'static [&'static str] = &["C23"];
    const ALSO: &'static [&'static str] = &["C23"];
    const ALIGN: usize = 4;
    fn size(v: u64) -> usize {
        size_of::<TokS>() + 2 + 2 * (lo(v) % 5) as usize
    }
    fn toks(_: u64) -> i64 {
        1
    }
    fn mk(v: u64) -> Bi<'static, Self::T> {
        bi(ManyNtInit(tup2::Init(FixedLen(TokS::new(v)), SizedInit((lo(v) % 5) as u8, small::<u16>(v, 0)))))
    }
    fn ok(t: &Self::T, v: u64) -> bool {
        let r = t.inner().refs();
        r.0 .0.val() == v && same(&r.1[..], v, (lo(v) % 5) as usize)
    }
    fn set(t: Pin<&mut Self::T>, v: u64) {
        let mut m = t.inner_mut().muts();
        m.0 .0 = TokS::new(v);
        put(m.1.mut_slice(), v);
    }
}

// ---------------------------------------------------------------- sequences

pub trait Idx: Indexing + Sized + 'static {
    const CHECKED: bool;
    fn checked<T: VarLen>(_q: &mut Seq<T, Self>) -> Option<&mut Seq<T, CheckedIndexing>> {
        None
    }
}
impl Idx for UncheckedIndexing {
    const CHECKED: bool = false;
}
impl Idx for CheckedIndexing {
    const CHECKED: bool = true;
    fn checked<T: VarLen>(q: &mut Seq<T, Self>) -> Option<&mut Seq<T, CheckedIndexing>> {
        Some(q)
    }
}

/// A sequence and what it must contain.
struct Sq<K: Kind, I: Idx> {
    q: Seq<K::T, I>,
    vals: Vec<u64>,
    offs: Vec<usize>,
    occ: usize,
}
pub const FOR: [&str; 22] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "ALL"];
fn units<K: Kind>(v: u64) -> usize {
    up(K::size(v).max(1), K::ALIGN) / K::ALIGN
}
impl<K: Kind, I: Idx> Sq<K, I> {
    fn new() -> Self {
        Sq { q: Seq::new(), vals: Vec::new(), offs: Vec::new(), occ: 0 }
    }
    fn note(&mut self, v: u64) {
        self.vals.push(v);
        self.offs.push(self.occ);
        self.occ += units::<K>(v);
    }
    fn clear(&mut self) {
        self.vals.clear();
        self.offs.clear();
        self.occ = 0;
    }
    fn toks(&self) -> i64 {
        self.vals.iter().map(|v| K::toks(*v)).sum()
    }
    fn append(&mut self, vs: &[u64], r: &mut Rng) {
        if self.vals.is_empty() && self.q.capacity_in_offsets() == 0 && r.chance(1, 5) {
            self.q = lib(|| vs.iter().map(|v| K::mk(*v)).collect());
        } else {
            match r.below(4) {
                0 => {
                    for v in vs {
                        lib(|| self.q.push(K::mk(*v)))
                    }
                }
                1 => lib(|| self.q.extend(vs.iter().map(|v| K::mk(*v)))),
                2 => {
                    let mut it = vs.iter();
                    lib(|| self.q.extend(std::iter::from_fn(|| it.next().map(|v| K::mk(*v)))))
                }
                _ => {
                    // Some from boxes.
                    for v in vs {
                        if *v % 16 == 3 {
                            let b = lib(|| VBox::<K::T>::new(K::mk(*v)));
                            lib(|| self.q.push(b))
                        } else {
                            lib(|| self.q.push(K::mk(*v)))
                        }
                    }
                }
            }
        }
        for v in vs {
            self.note(*v)
        }
    }
    /// Everything that can be seen of the sequence.
    fn audit(&mut self, what: &str, tags: &[&str], r: &mut Rng) {
        if ctx::poisoned() {
            return;
        }
        let n = self.vals.len();
        let judge = |base: &[&str], ok: bool, msg: &dyn Fn() -> String| {
            if !ok {
                let mut t = base.to_vec();
                t.extend_from_slice(tags);
                ctx::fail(&t, user(|| format!("{} after {} ({} elements): {}", K::NAME, what, n, msg())));
            }
        };
        let q = &mut self.q;
        judge(&["C10", "C04"], q.len() == n, &|| format!("len() is {}", q.len()));
        judge(&["C12", "C10"], q.offset() == self.occ, &|| format!("offset() is {:#x} instead of {:#x}", q.offset(), self.occ));
        judge(&["C13", "C01"], q.capacity_in_offsets() >= self.occ, &|| format!("capacity {:#x} for {:#x}", q.capacity_in_offsets(), self.occ));
        if ctx::poisoned() {
            return;
        }
        // Iteration, shared.
        let mut base = 0usize;
        let mut it = q.iter();
        for i in 0..n {
            if i % 61 == 0 || i + 3 > n {
                judge(&["C10"], it.size_hint() == (n - i, Some(n - i)) && it.len() == n - i, &|| format!("size_hint {:?} at {}", it.size_hint(), i));
            }
            let Some(t) = it.next() else {
                judge(&["C10", "C02"], false, &|| format!("iteration ends after {}", i));
                return;
            };
            let a = t as *const K::T as usize;
            if i == 0 {
                base = a
            }
            let off = (a - base) / K::ALIGN;
            judge(&["C10", "C12", "C06", "C02"], a - base == self.offs[i] * K::ALIGN, &|| format!("element {} is at offset {:#x} instead of {:#x}", i, off, self.offs[i]));
            if ctx::poisoned() {
                return;
            }
            judge(if K::NAME.starts_with("Str") { &["C19", "C02", "C10", "C12", "C13", "C01"] } else { &["C02", "C10", "C12", "C13", "C01"] }, K::ok(t, self.vals[i]), &|| format!("element {} is not {:#x}", i, self.vals[i]));
            let o = ctx::catch(|| q.offset_of(t));
            judge(&["C12"], matches!(o, Ok(x) if x == self.offs[i]), &|| format!("offset_of element {} is {:?} instead of {:#x}", i, o, self.offs[i]));
            if ctx::poisoned() {
                return;
            }
        }
        judge(&["C10"], it.next().is_none() && it.next().is_none(), &|| "iteration does not end".to_string());
        let q = &mut self.q;
        judge(&["C10"], q.iter().count() == n, &|| format!("count() is {}", q.iter().count()));
        for _ in 0..3 {
            let k = r.below(n + 2);
            let lim = q.iter().limited_to(k);
            judge(&["C10"], lim.len() == k.min(n), &|| format!("limited to {} has length {}", k, lim.len()));
            let last = lim.last();
            let want = k.min(n).checked_sub(1).map(|i| self.vals[i]);
            judge(&["C10"], last.is_some() == want.is_some() && last.map_or(true, |t| K::ok(t, want.unwrap())), &|| format!("the last of those limited to {} is wrong", k));
            let nth = q.iter().nth(k);
            judge(&["C10"], nth.is_some() == (k < n) && nth.map_or(true, |t| K::ok(t, self.vals[k])), &|| format!("nth({}) is wrong", k));
            if k > 0 {
                let s = q.iter().skip(k - 1).step_by(257).map(|t| t as *const K::T as usize - base).last();
                let want = if k - 1 < n { Some(self.offs[k - 1 + (n - k) / 257 * 257] * K::ALIGN) } else { None };
                judge(&["C10"], s == want, &|| format!("skipping {} in steps ends at {:x?} instead of {:x?}", k - 1, s, want));
            }
        }
        // By offset.
        if n > 0 {
            for _ in 0..20 {
                let i = r.below(n);
                let t = unsafe { q.from_offset_unchecked(self.offs[i]) };
                judge(&["C12", "C11"], t as *const K::T as usize - base == self.offs[i] * K::ALIGN && K::ok(t, self.vals[i]), &|| format!("from_offset_unchecked({:#x}) is not element {}", self.offs[i], i));
            }
        }
        let occ = self.occ;
        if let Some(q) = I::checked(q) {
            let mut k = 0;
            for o in 0..occ + 70 {
                let live = k < n && self.offs[k] == o;
                k += live as usize;
                let got = q.is_offset_valid(o);
                if got != live {
                    judge(&["C11", "C01"], false, &|| format!("is_offset_valid({:#x}) is {}", o, got));
                    return;
                }
            }
            for _ in 0..20 {
                let o = if n > 0 && r.chance(2, 3) { self.offs[r.below(n)] } else { r.below(occ + 9) };
                let i = self.offs.binary_search(&o).ok();
                match i {
                    Some(i) => {
                        let same = K::ok(q.from_offset(o), self.vals[i]) && K::ok(&*q.from_offset_mut(o), self.vals[i]);
                        judge(&["C11", "C12"], same, &|| format!("from_offset({:#x}) is not element {}", o, i));
                    }
                    None => {
                        let a = ctx::catch(|| q.from_offset(o) as *const K::T as usize).is_ok();
                        let b = ctx::catch(|| &*q.from_offset_mut(o) as *const K::T as usize).is_ok();
                        judge(&["C11", "C01"], !a && !b, &|| format!("from_offset({:#x}) or its mutable form is accepted", o));
                    }
                }
                if ctx::poisoned() {
                    return;
                }
            }
        }
        ctx::add("many.elements_audited", n as u64);
        ctx::poll();
    }
    /// Alters some elements, through each kind of mutable access.
    fn alter(&mut self, r: &mut Rng) {
        let n = self.vals.len();
        if n == 0 {
            return;
        }
        let new = |v: u64, r: &mut Rng| r.u64() << 8 | v & 0xff;
        match r.below(3) {
            0 => {
                let step = r.range(1, 300);
                let mut i = 0;
                let lim = r.range(1, n);
                for t in lib(|| self.q.iter_mut().limited_to(lim)) {
                    if i % step == 0 {
                        self.vals[i] = new(self.vals[i], r);
                        K::set(t, self.vals[i]);
                    }
                    i += 1;
                }
                vassert!(["C10", "C16"], i == lim, "{}: mutable iteration limited to {} has {} elements", K::NAME, lim, i);
            }
            1 => {
                // All at once, then in any order.
                let mut all: Vec<_> = lib(|| self.q.iter_mut()).collect();
                vassert!(["C10", "C16"], all.len() == n, "{}: mutable iteration has {} elements instead of {}", K::NAME, all.len(), n);
                if ctx::poisoned() {
                    return;
                }
                for _ in 0..r.range(1, 60) {
                    let i = r.below(n);
                    self.vals[i] = new(self.vals[i], r);
                    K::set(all[i].as_mut(), self.vals[i]);
                }
            }
            _ => {
                for _ in 0..r.range(1, 60) {
                    let i = r.below(n);
                    self.vals[i] = new(self.vals[i], r);
                    let o = self.offs[i];
                    match I::checked(&mut self.q) {
                        Some(q) if r.chance(1, 2) => K::set(q.from_offset_mut(o), self.vals[i]),
                        _ => K::set(unsafe { self.q.from_offset_unchecked_mut(o) }, self.vals[i]),
                    }
                }
            }
        }
    }
}

fn balance(what: &str, name: &str, want: i64, tags: &[&str]) {
    let l = tok::live();
    if l != want {
        let mut t = vec!["C03", "C14", "C04"];
        t.extend_from_slice(tags);
        ctx::fail(&t, user(|| format!("{}: {} values are alive instead of {} after {}", name, l, want, what)));
    }
    ctx::poll();
}

fn pick_count(r: &mut Rng) -> usize {
    match r.below(32) {
        0..=9 => *r.pick(&[255, 256, 257, 258, 260, 300, 511, 512, 513]),
        10..=23 => r.range(256, 1500),
        24..=29 => r.range(1500, 9000),
        _ => *r.pick(&[65535, 65536, 65537, 65540, 66000]),
    }
}
fn new_val(r: &mut Rng) -> u64 {
    r.u64() >> 3
}

fn many_case<K: Kind, I: Idx>(r: &mut Rng) {
    ctx::also(K::ALSO);
    let n = pick_count(r);
    let small_round = n > 9000;
    let live0 = galloc::totals().live_blocks;
    // Values that are never dropped, as an iterator over them was forgotten.
    let mut lost = 0i64;
    {
        let mut s: Sq<K, I> = Sq::new();
        let vs: Vec<u64> = (0..n).map(|_| new_val(r)).collect();
        let mut done = 0;
        while done < n {
            let k = if r.chance(1, 3) { n - done } else { r.range(1, n - done) };
            let t0 = galloc::totals();
            let cap = s.q.capacity_in_offsets();
            s.append(&vs[done..done + k], r);
            let t1 = galloc::totals();
            let _ = (t0, t1);
            vassert!(["C13"], s.q.capacity_in_offsets() >= cap, "{}: the capacity shrinks", K::NAME);
            done += k;
        }
        s.audit("appending", &["C05"], r);
        balance("appending", K::NAME, s.toks(), &["C02"]);
        let rounds = if small_round { 2 } else { 4 };
        for _ in 0..rounds {
            if ctx::poisoned() {
                return;
            }
            match r.below(8) {
                0 => {
                    s.alter(r);
                    s.audit("altering", &["C16", "C17", "C18", "C19", "C23"], r);
                    balance("altering", K::NAME, s.toks() + lost, &["C16"]);
                }
                1 => {
                    // Taken, and kept, dropped, moved on.
                    let cap = s.q.capacity_in_offsets();
                    let k = if r.chance(1, 3) { s.vals.len() } else { r.below(s.vals.len() + 1) };
                    let total = s.vals.len();
                    let vals = std::mem::take(&mut s.vals);
                    s.clear();
                    let mut other: Sq<K, CheckedIndexing> = Sq::new();
                    let mut boxes = Vec::new();
                    let mut held_vals = Vec::new();
                    let mut dropped = 0i64;
                    {
                        let mut held = Vec::new();
                        let mut it = lib(|| s.q.take_elems());
                        for i in 0..k {
                            if i % 97 == 0 {
                                let l = total - i;
                                vassert!(["C14", "C10"], it.size_hint() == (l, Some(l)) && it.len() == l, "{}: taken elements: size_hint {:?} with {} left", K::NAME, it.size_hint(), l);
                            }
                            let v = vals[i];
                            let Some(o) = lib(|| it.next()) else {
                                vassert!(["C14"], false, "{}: only {} of {} elements are taken", K::NAME, i, total);
                                return;
                            };
                            vassert!(["C14", "C02"], K::ok(&o, v), "{}: taken element {} of {} is not {:#x}", K::NAME, i, total, v);
                            if ctx::poisoned() {
                                return;
                            }
                            match (v >> 11) % 4 {
                                0 => {
                                    dropped += K::toks(v);
                                    lib(|| drop(o))
                                }
                                1 => {
                                    lib(|| other.q.push(o));
                                    other.note(v)
                                }
                                2 if v % 32 == 0 => boxes.push((lib(|| VBox::<K::T>::new(o)), v)),
                                _ => {
                                    held.push(o);
                                    held_vals.push(v)
                                }
                            }
                        }
                        let rest: i64 = vals[k..].iter().map(|v| K::toks(*v)).sum();
                        match r.below(4) {
                            0 => {
                                lost += rest;
                                std::mem::forget(it)
                            }
                            1 if k < total => {
                                let c = lib(|| it.count());
                                vassert!(["C14", "C10"], c == total - k, "{}: {} elements counted instead of {}", K::NAME, c, total - k);
                            }
                            _ => lib(|| drop(it)),
                        }
                        balance("taking", K::NAME, vals.iter().map(|v| K::toks(*v)).sum::<i64>() - dropped - rest + lost, &["C14"]);
                        for (o, v) in held.iter().zip(&held_vals) {
                            vassert!(["C14", "C02"], K::ok(o, *v), "{}: an element taken and held is not {:#x} any more", K::NAME, v);
                        }
                        if r.chance(1, 2) {
                            held.reverse()
                        }
                        lib(|| drop(held));
                    }
                    other.audit("taking into it", &["C14"], r);
                    for (b, v) in &boxes {
                        vassert!(["C14", "C02"], K::ok(b, *v), "{}: an element taken into a box is not {:#x}", K::NAME, v);
                    }
                    lib(|| drop(boxes));
                    lib(|| drop(other.q));
                    balance("taking everything", K::NAME, lost, &["C14"]);
                    s.audit("taking", &["C14"], r);
                    // Again, with no more than there was.
                    vassert!(["C13", "C14"], s.q.capacity_in_offsets() == cap, "{}: taking changes the capacity", K::NAME);
                    let vs = if r.chance(1, 2) { vals } else { vals[..r.below(total + 1)].to_vec() };
                    galloc::mark();
                    let way = r.chance(1, 2);
                    if way {
                        lib(|| s.q.extend(vs.iter().map(|v| K::mk(*v))))
                    } else {
                        for v in &vs {
                            lib(|| s.q.push(K::mk(*v)))
                        }
                    }
                    vassert!(["C13", "C07"], galloc::events().1 == 0, "{}: refilling with no more than before does {} heap operations", K::NAME, galloc::events().1);
                    for v in &vs {
                        s.note(*v)
                    }
                    s.audit("refilling", &["C14"], r);
                    ctx::count("many.taken");
                }
                2 => {
                    // Interrupted.
                    let before = s.toks() + lost;
                    let m = r.range(1, 700);
                    let at = r.below(m);
                    let vs: Vec<u64> = (0..m).map(|_| new_val(r)).collect();
                    let mut i = 0;
                    let e = ctx::catch(|| {
                        lib(|| {
                            s.q.extend(vs.iter().map(|v| {
                                i += 1;
                                if i > at {
                                    user(|| std::panic::panic_any(ctx::Planned))
                                }
                                K::mk(*v)
                            }))
                        })
                    });
                    vassert!(["C04", "C10"], matches!(e, Err(Caught::Planned)), "{}: a panic in the iterator is lost", K::NAME);
                    for v in &vs[..at] {
                        s.note(*v)
                    }
                    s.audit("a panic while extending", &["C04"], r);
                    let added: i64 = vs[..at].iter().map(|v| K::toks(*v)).sum();
                    balance("a panic while extending", K::NAME, before + added, &["C04"]);
                    ctx::count("many.interrupted");
                }
                3 => {
                    // Clones or copies.
                    let mut other: Sq<K, I> = Sq::new();
                    let mode = r.below(2);
                    let mut any = false;
                    for (t, v) in s.q.iter().zip(&s.vals) {
                        let c = if mode == 0 { K::clone(t) } else { K::copy(t) };
                        if let Some(c) = c {
                            any = true;
                            lib(|| other.q.push(c));
                            other.note(*v);
                        }
                    }
                    if any {
                        other.audit("cloning into it", &["C15"], r);
                        balance("cloning", K::NAME, s.toks() + other.toks() + lost, &["C15"]);
                        other.alter(r);
                        s.audit("altering clones", &["C15", "C16"], r);
                        s.alter(r);
                        other.audit("altering the originals", &["C15", "C16"], r);
                        ctx::count("many.cloned");
                    }
                    lib(|| drop(other.q));
                }
                4 => {
                    // As many objects in an arena.
                    let bump = Bump::new();
                    let mut hs: Vec<(Owned<K::T>, u64)> = Vec::new();
                    let m = s.vals.len().min(20000);
                    for v in &s.vals[..m] {
                        hs.push((lib(|| Owned::new_in(K::mk(*v), &bump)), *v));
                    }
                    let mut ext: Vec<(usize, usize)> = Vec::new();
                    for (h, v) in &hs {
                        let a = &**h as *const K::T as usize;
                        vassert!(["C22", "C06"], a % K::ALIGN == 0, "{}: an object in the arena is not aligned", K::NAME);
                        ext.push((a, a + K::size(*v)));
                    }
                    ext.retain(|e| e.0 != e.1);
                    ext.sort();
                    vassert!(["C22", "C05", "C01"], ext.windows(2).all(|w| w[0].1 <= w[1].0), "{}: objects in the arena overlap", K::NAME);
                    for j in 0..m.min(50) {
                        let i = r.below(m);
                        let v = r.u64() << 8 | hs[i].1 & 0xff;
                        K::set(hs[i].0.as_mut(), v);
                        hs[i].1 = v;
                        let _ = j;
                    }
                    for (h, v) in &hs {
                        vassert!(["C22", "C02"], K::ok(h, *v), "{}: an object in the arena is not {:#x}", K::NAME, v);
                    }
                    if ctx::poisoned() {
                        return;
                    }
                    let now: i64 = hs.iter().map(|h| K::toks(h.1)).sum();
                    balance("creating objects in an arena", K::NAME, s.toks() + now + lost, &["C22"]);
                    // Some move into the sequence, the rest is dropped in any order.
                    if r.chance(1, 2) {
                        hs.reverse()
                    }
                    let k = r.below(m + 1);
                    for (h, v) in hs.drain(..k) {
                        lib(|| s.q.push(h));
                        s.note(v);
                    }
                    lib(|| drop(hs));
                    drop(bump);
                    s.audit("moving objects from an arena into it", &["C22"], r);
                    balance("dropping arena handles", K::NAME, s.toks() + lost, &["C22"]);
                    ctx::count("many.arenas");
                }
                5 => {
                    // As many boxes, raw and cloned.
                    let m = s.vals.len().min(5000);
                    let b0 = galloc::totals().live_blocks;
                    let mut bs = Vec::new();
                    let mut empty = 0;
                    for v in &s.vals[..m] {
                        let b = lib(|| VBox::<K::T>::new(K::mk(*v)));
                        let b = if v % 3 == 0 { lib(|| unsafe { VBox::from_raw(b.into_raw()) }) } else { b };
                        let b = if v % 5 == 0 { lib(|| K::bclone(&b).unwrap_or(b)) } else { b };
                        empty += (K::size(*v) == 0) as u64;
                        bs.push((b, *v));
                    }
                    if galloc::ON {
                        let d = galloc::totals().live_blocks - b0;
                        vassert!(["C07", "C21", "C15"], d == m as u64 - empty, "{}: {} boxes are {} blocks", K::NAME, m, d);
                    }
                    for (b, v) in &bs {
                        vassert!(["C02", "C21", "C15"], K::ok(b, *v), "{}: a box is not {:#x}", K::NAME, v);
                    }
                    balance("boxing", K::NAME, s.toks() + bs.iter().map(|b| K::toks(b.1)).sum::<i64>() + lost, &["C21", "C15"]);
                    let k = r.below(m + 1);
                    for (b, v) in bs.drain(..k) {
                        lib(|| s.q.push(b));
                        s.note(v);
                    }
                    lib(|| drop(bs));
                    s.audit("moving boxes into it", &["C02"], r);
                    balance("moving boxes", K::NAME, s.toks() + lost, &["C21"]);
                    ctx::count("many.boxes");
                }
                6 => {
                    // The whole sequence moves.
                    let m = std::mem::replace(&mut s.q, Seq::new());
                    let b = Box::new(m);
                    s.q = *b;
                    s.audit("moving it", &["C02"], r);
                }
                _ => {
                    let m = *r.pick(&[1, 2, 60, 255, 256, 600]);
                    let vs: Vec<u64> = (0..m).map(|_| new_val(r)).collect();
                    s.append(&vs, r);
                    s.audit("appending more", &["C05"], r);
                }
            }
        }
        if ctx::poisoned() {
            return;
        }
        ctx::max("max.many_elements", s.vals.len() as u64);
        ctx::distinct(mix(mix(n as u64, K::NAME.len() as u64), s.vals.iter().fold(0, |h, v| mix(h, *v))));
        ctx::sample(|| format!("{} elements of {}, {} offsets", s.vals.len(), K::NAME, s.occ));
        lib(|| drop(s.q));
    }
    balance("dropping the sequence", K::NAME, lost, &["C02"]);
    if galloc::ON {
        let d = galloc::totals().live_blocks as i64 - live0 as i64;
        vassert!(["C07", "C03"], d == 0, "{}: {} blocks remain", K::NAME, d);
    }
    galloc::flush_quarantine();
    ctx::poll();
}

// ---------------------------------------------------------------- long arrays

/// One long array, and what it must contain.
fn wide_case<E: Elem, L: LenT>(r: &mut Rng) {
    let n = loop {
        let n = match r.below(10) {
            0..=3 => r.range(256, 5000),
            4..=6 => *r.pick(&[4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000]),
            7..=8 => r.range(5000, 66000),
            _ => *r.pick(&[131071, 131072, 131073, 200000]),
        };
        if n <= L::MAXLEN && n * (E::TOKS + 1) <= 300_000 {
            break n;
        }
        if L::MAXLEN < 256 {
            break r.range(200, 255);
        }
    };
    let name = user(|| format!("Array<{},{}> of length {}", E::NAME, L::LNAME, n));
    let salt = r.u64();
    let mut vals: Vec<u64> = (0..n).map(|i| mix(salt, i as u64)).collect();
    let len = L::of(n);
    let head = up(size_of::<L>(), align_of::<E>().max(align_of::<L>()));
    let toks = (n * E::TOKS) as i64;
    let check = |a: &Array<E, L>, vals: &[u64], what: &str, tags: &[&str]| {
        if ctx::poisoned() {
            return;
        }
        let s = &a[..];
        let mut t = vec!["C02", "C20", "C01"];
        t.extend_from_slice(tags);
        if s.len() != vals.len() {
            ctx::fail(&t, user(|| format!("{}: length {} after {}", name, s.len(), what)));
            return;
        }
        for (i, x) in s.iter().enumerate() {
            if x.get() != E::norm(vals[i]) {
                ctx::fail(&t, user(|| format!("{}: element {} is {:#x} instead of {:#x} after {}", name, i, x.get(), E::norm(vals[i]), what)));
                return;
            }
        }
        let at = s.as_ptr() as usize - a as *const Array<E, L> as usize;
        let size = a.calculate_layout().size();
        vassert!(["C06", "C05"], at == head && size == head + n * size_of::<E>(), "{}: elements at {}, size {}", name, at, size);
        ctx::add("wide.elements_audited", n as u64);
        ctx::poll();
    };
    let live0 = galloc::totals().live_blocks;
    {
        let src: Vec<E> = if r.chance(1, 2) { vals.iter().map(|v| E::mk(*v)).collect() } else { Vec::new() };
        let from_src = !src.is_empty();
        let mut b: VBox<Array<E, L>> = if from_src && E::COPY && r.chance(1, 2) {
            let Some(i) = E::try_copy::<L>(&src) else { return };
            let Some(i) = i else {
                vassert!(["C08"], false, "{}: copying is refused", name);
                return;
            };
            lib(|| VBox::new(i))
        } else if from_src && E::CLONE {
            match E::try_clone_from::<L>(&src) {
                Some(Some(i)) => lib(|| VBox::new(i)),
                _ => return,
            }
        } else if !from_src && r.chance(1, 2) {
            let mut i = 0;
            let it = std::iter::from_fn(|| {
                i += 1;
                Some(user(|| E::mk(vals[i - 1])))
            });
            lib(|| VBox::new(SizedInit(len, FromIterPrefix(it))))
        } else {
            lib(|| VBox::new(SizedInit(len, FillSequentially(|i| user(|| E::mk(vals[i]))))))
        };
        drop(src);
        if galloc::ON {
            let size = b.calculate_layout().size();
            let k = galloc::block_of(&*b as *const _ as usize);
            vassert!(["C07"], matches!(k, Some((_, s, _)) if s == size), "{}: the block is {:?} for an object of {} bytes", name, k, size);
        }
        check(&b, &vals, "construction", &["C05"]);
        balance("construction", &name, toks, &["C20"]);
        for _ in 0..r.range(1, 4) {
            if ctx::poisoned() {
                return;
            }
            match r.below(4) {
                0 => {
                    let s = b.as_mut().mut_slice();
                    vassert!(["C16"], s.len() == n, "{}: the mutable slice has length {}", name, s.len());
                    if s.len() == n {
                        for _ in 0..r.range(1, 40) {
                            let i = if r.chance(1, 4) { n - 1 } else { r.below(n) };
                            vals[i] = r.u64();
                            s[i].set(vals[i]);
                        }
                    }
                    check(&b, &vals, "altering", &["C16"]);
                }
                1 => {
                    let c = if r.chance(1, 2) { E::arr_vclone::<L>(&b) } else { E::arr_vcopy::<L>(&b) };
                    let c = c.map(|c| lib(|| VBox::new(c)));
                    if let Some(mut c) = c {
                        check(&c, &vals, "cloning", &["C15"]);
                        balance("cloning", &name, 2 * toks, &["C15"]);
                        let mut v2 = vals.clone();
                        for _ in 0..20 {
                            let i = r.below(n);
                            v2[i] = r.u64();
                            c.as_mut().mut_slice()[i].set(v2[i]);
                        }
                        check(&b, &vals, "altering its clone", &["C15", "C16"]);
                        if r.chance(1, 2) {
                            std::mem::swap(&mut b, &mut c);
                            std::mem::swap(&mut vals, &mut v2);
                        }
                        lib(|| drop(c));
                        check(&b, &vals, "dropping the other", &["C15"]);
                        balance("dropping a clone", &name, toks, &["C15"]);
                    }
                }
                2 => {
                    // Through a sequence, an arena and raw pointers, back into a box.
                    let bump = Bump::new();
                    let mut q: Seq<Array<E, L>, CheckedIndexing> = Seq::new();
                    for k in 0..r.below(3) {
                        lib(|| q.push(SizedInit(L::of(k), FillSequentially(|i| E::mk(i as u64)))))
                    }
                    let at = q.offset();
                    lib(|| q.push(b));
                    check(q.from_offset(at), &vals, "moving into a sequence", &["C10", "C13"]);
                    for k in 0..r.below(3) {
                        lib(|| q.push(SizedInit(L::of(k), FillSequentially(|i| E::mk(i as u64)))))
                    }
                    check(q.from_offset(at), &vals, "appending to its sequence", &["C10", "C13", "C12"]);
                    vassert!(["C12"], q.iter().any(|t| q.offset_of(t) == at && t.len() == n), "{}: not found at its offset", name);
                    let mut out = None;
                    for o in lib(|| q.take_elems()) {
                        if o.len() == n {
                            out = Some(lib(|| Owned::new_in(o, &bump)));
                        } else {
                            lib(|| drop(o))
                        }
                    }
                    lib(|| drop(q));
                    let Some(o) = out else {
                        vassert!(["C14", "C02"], false, "{}: not among the elements taken", name);
                        return;
                    };
                    check(&o, &vals, "moving into an arena", &["C22", "C14"]);
                    let o = unsafe { Owned::from_raw(o.into_raw()) };
                    b = lib(|| VBox::new(o));
                    b = unsafe { VBox::from_raw(b.into_raw()) };
                    check(&b, &vals, "moving into a box again", &["C22", "C21", "C14"]);
                    balance("moving", &name, toks, &["C22", "C21"]);
                }
                _ => {
                    // A clone that is interrupted late.
                    if E::EVENTS > 0 {
                        let e = E::arr_vclone::<L>(&b).map(|c| {
                            tok::plan(tok::CLONE, (n - 1 - r.below(n.min(300))) as i64);
                            let e = ctx::catch(|| lib(|| drop(VBox::new(c))));
                            tok::clear_plan();
                            e
                        });
                        if let Some(e) = e {
                            vassert!(["C04", "C20"], matches!(e, Err(Caught::Planned)), "{}: a clone with a panic ends with {:?}", name, e);
                            check(&b, &vals, "an interrupted clone", &["C04"]);
                            let l = tok::live();
                            vassert!(["C04", "C03"], l >= toks && l <= 2 * toks, "{}: {} values after an interrupted clone", name, l);
                            // What was made may be lost with the interrupted object: the balance is over.
                            lib(|| drop(b));
                            ctx::poll();
                            ctx::distinct(mix(salt, n as u64));
                            return;
                        }
                    }
                }
            }
        }
        lib(|| drop(b));
    }
    balance("dropping it", &name, 0, &["C02"]);
    if galloc::ON {
        let d = galloc::totals().live_blocks as i64 - live0 as i64;
        vassert!(["C07", "C03"], d == 0, "{}: {} blocks remain", name, d);
    }
    // All default.
    if let Some(d) = E::arr_default() {
        let b: VBox<Array<E, L>> = lib(|| VBox::new(SizedInit(len, d)));
        vassert!(["C20", "C02"], b.len() == n && b.iter().all(|x| x.get() == E::norm(E::dflt())), "{}: not all default", name);
    }
    balance("dropping the default one", &name, 0, &["C20"]);
    galloc::flush_quarantine();
    ctx::poll();
    ctx::max("max.array_length", n as u64);
    ctx::distinct(mix(salt, n as u64));
    ctx::sample(|| name.clone());
    let _ = (FillWithDefault, CopyFrom::<u8>(&[]), CloneFrom::<u8>(&[]));
}

// ---------------------------------------------------------------- wide structs

#[define_varlen]
pub struct WideS {
    #[controls_layout]
    n: u32,
    #[controls_layout]
    m: u16,
    #[controls_layout]
    mark: u8,
    tag: TokS,
    #[varlen_array]
    a: [TokS; *n as usize],
    #[varlen]
    s: Str<u32>,
    #[varlen_array]
    b: [u8; *m as usize + *n as usize / 3],
    #[varlen]
    w: Array<u64, u32>,
    #[varlen_array]
    c: [u16; *m as usize * 2],
    #[varlen_array]
    z: [ZTok; *n as usize],
}
/// What a `WideS` must contain.
#[derive(Clone)]
struct Wide {
    n: usize,
    m: usize,
    mark: u8,
    w: usize,
    text: String,
    v: u64,
}
impl Wide {
    fn new(r: &mut Rng) -> Self {
        let long = |r: &mut Rng, max: usize| match r.below(6) {
            0 => r.below(9),
            1 => r.range(250, 260),
            2 => r.range(256, 4000),
            3 => r.range(4000, 65535),
            4 => *r.pick(&[65534, 65535, 65536, 65537, 65792]),
            _ => r.range(65536, 90000),
        }
        .min(max);
        let n = long(r, 100_000);
        let m = long(r, 65535);
        let w = long(r, 70_000);
        let t = long(r, 100_000);
        let v = new_val(r);
        let text = (0..t).map(|i| if i % 97 == 5 { '\u{e9}' } else { ch(v, i) as char }).collect();
        Wide { n, m, mark: r.u64() as u8, w, text, v }
    }
    fn toks(&self) -> i64 {
        1 + 2 * self.n as i64
    }
    fn b(&self) -> usize {
        self.m + self.n / 3
    }
    fn init(&self) -> Bi<'_, WideS> {
        bi(wide_s::Init {
            n: self.n as u32,
            m: self.m as u16,
            mark: self.mark,
            tag: TokS::new(self.v),
            a: small::<TokS>(self.v ^ 1, 0),
            s: Str::<u32>::try_copy(&self.text).unwrap(),
            b: small::<u8>(self.v ^ 2, 0),
            w: SizedInit(self.w as u32, small::<u64>(self.v ^ 3, 0)),
            c: small::<u16>(self.v ^ 4, 0),
            z: FillSequentially(|_| user(ZTok::new)),
        })
    }
    fn check(&self, t: &WideS, what: &str, tags: &[&str]) {
        if ctx::poisoned() {
            return;
        }
        let r = t.refs();
        let mut all = vec!["C01", "C02", "C17", "C18"];
        all.extend_from_slice(tags);
        let at = |p: *const u8| p as usize - t as *const WideS as usize;
        let mut o = size_of::<(u32, u16, u8, TokS)>();
        o = up(o, align_of::<TokS>());
        let mut want = vec![o];
        o = up(o + self.n * size_of::<TokS>(), 4);
        want.push(o);
        o += 4 + self.text.len();
        want.push(o);
        o = up(o + self.b(), align_of::<u64>().max(4));
        want.push(o);
        o += align_of::<u64>().max(4) + 8 * self.w;
        o = up(o, 2);
        want.push(o);
        o += 4 * self.m;
        want.push(o);
        let got = vec![at(r.a.as_ptr().cast()), at(r.s as *const _ as *const u8), at(r.b.as_ptr()), at(r.w as *const _ as *const u8), at(r.c.as_ptr().cast()), at(r.z.as_ptr().cast())];
        let size = t.calculate_layout().size();
        vassert!(["C05", "C06", "C18", "C17"], got == want && size == o, "WideS after {}: fields at {:?} with size {} instead of {:?} with size {}", what, got, size, want, o);
        let lens = (r.a.len(), r.s.len(), r.b.len(), r.w.len(), r.c.len(), r.z.len());
        let lens2 = (self.n, self.text.len(), self.b(), self.w, 2 * self.m, self.n);
        if lens != lens2 {
            ctx::fail(&all, user(|| format!("WideS after {}: lengths {:?} instead of {:?}", what, lens, lens2)));
            return;
        }
        let v = self.v;
        let parts = [
            *r.n as usize == self.n && *r.m as usize == self.m && *r.mark == self.mark,
            r.tag.val() == v,
            same(r.a, v ^ 1, self.n),
            **r.s == *self.text,
            same(r.b, v ^ 2, self.b()),
            same(&r.w[..], v ^ 3, self.w),
            same(r.c, v ^ 4, 2 * self.m),
        ];
        if let Some(i) = parts.iter().position(|x| !x) {
            ctx::fail(&all, user(|| format!("WideS after {}: part {} has other contents (n {}, m {}, w {}, text {})", what, i, self.n, self.m, self.w, self.text.len())));
        }
        ctx::add("wide.struct_elements_audited", (2 * self.n + self.text.len() + self.b() + self.w + 2 * self.m) as u64);
        ctx::poll();
    }
    fn alter(&mut self, t: Pin<&mut WideS>, r: &mut Rng) {
        self.v = new_val(r);
        let v = self.v;
        let mut m = t.muts();
        *m.tag = TokS::new(v);
        put(m.a, v ^ 1);
        let text = user(|| self.text.to_ascii_uppercase());
        m.s.as_mut().mut_slice().make_ascii_uppercase();
        self.text = text;
        put(m.b, v ^ 2);
        put(m.w.as_mut().mut_slice(), v ^ 3);
        put(m.c, v ^ 4);
        let k = m.z.len();
        if k > 0 {
            m.z[k - 1] = ZTok::new();
        }
    }
    fn controllers(&mut self, mut t: Pin<&mut WideS>, r: &mut Rng) {
        for _ in 0..4 {
            let mark = r.u64() as u8;
            let (n, m) = match r.below(8) {
                0 => (self.n as u32 ^ 1 << r.below(32), self.m as u16),
                1 => (self.n as u32, self.m as u16 ^ 1 << r.below(16)),
                2 => ((self.n as u32).wrapping_add(65536), self.m as u16),
                3 => ((self.n as u32).wrapping_add(3), (self.m as u16).wrapping_sub(1)),
                4 => (r.u64() as u32, r.u64() as u16),
                _ => (self.n as u32, self.m as u16),
            };
            let fits = n as usize == self.n && m as usize == self.m;
            let res = t.as_mut().try_set_layout_controllers(wide_s::LayoutControllers { n, m, mark });
            vassert!(["C17", "C18"], res.is_ok() == fits, "WideS with {} and {}: setting {} and {} gives {:?}", self.n, self.m, n, m, res.is_ok());
            if fits {
                self.mark = mark
            }
        }
    }
}

fn wide_struct_case(r: &mut Rng) {
    ctx::also(&["C18"]);
    let mut live0 = galloc::totals().live_blocks;
    let mut lost = 0i64;
    {
        let mut w = Wide::new(r);
        if r.chance(1, 4) {
            // Not the first attempt succeeds.
            let k = r.below(w.toks() as usize);
            let k = if r.chance(1, 2) { k } else { w.toks() as usize - 1 - k.min(5) % w.toks() as usize };
            tok::plan(tok::CREATE, k as i64);
            let e = ctx::catch(|| lib(|| drop(VBox::<WideS>::new(w.init()))));
            tok::clear_plan();
            vassert!(["C04"], matches!(e, Err(Caught::Planned)), "WideS: an interrupted construction ends with {:?}", e);
            lost = tok::live();
            // The unfinished object may be lost, with its block.
            let left = galloc::totals().live_blocks - live0;
            vassert!(["C07", "C04"], left <= 1, "WideS: {} blocks remain of an interrupted construction", left);
            live0 += left;
            vassert!(["C04", "C03"], lost >= 0 && lost <= k as i64, "WideS: {} values after a construction interrupted at {}", lost, k);
            ctx::count("wide.interrupted");
        }
        let mut b: VBox<WideS> = lib(|| VBox::new(w.init()));
        if galloc::ON {
            let size = b.calculate_layout().size();
            let k = galloc::block_of(&*b as *const _ as usize);
            vassert!(["C07"], matches!(k, Some((_, s, _)) if s == size), "WideS: the block is {:?} for an object of {} bytes", k, size);
        }
        w.check(&b, "construction", &["C20", "C19"]);
        balance("construction", "WideS", w.toks() + lost, &["C02"]);
        for _ in 0..r.range(1, 4) {
            if ctx::poisoned() {
                return;
            }
            match r.below(3) {
                0 => {
                    w.alter(b.as_mut(), r);
                    w.check(&b, "altering", &["C16", "C19"]);
                    balance("altering", "WideS", w.toks() + lost, &["C16"]);
                }
                1 => {
                    w.controllers(b.as_mut(), r);
                    w.check(&b, "setting its controlling fields", &["C16"]);
                }
                _ => {
                    let bump = Bump::new();
                    let w2 = Wide { n: r.below(9), m: r.below(9), w: r.below(9), ..w.clone() };
                    let mut q: Seq<WideS> = Seq::new();
                    let first = r.chance(1, 2);
                    if first {
                        lib(|| q.push(w2.init()));
                    }
                    let at = q.offset();
                    lib(|| q.push(b));
                    if !first {
                        lib(|| q.push(w2.init()));
                    }
                    for (i, t) in q.iter().enumerate() {
                        let big = (i == 1) == first;
                        if big { &w } else { &w2 }.check(t, "moving into a sequence", &["C10", "C13"]);
                        vassert!(["C12"], (q.offset_of(t) == at) == big, "WideS: other offset");
                    }
                    let mut out = None;
                    for (i, o) in lib(|| q.take_elems()).enumerate() {
                        if (i == 1) == first {
                            out = Some(lib(|| Owned::new_in(o, &bump)));
                        } else {
                            lib(|| drop(o))
                        }
                    }
                    lib(|| drop(q));
                    let Some(o) = out else {
                        vassert!(["C14", "C02"], false, "WideS: not among the elements taken");
                        return;
                    };
                    w.check(&o, "moving into an arena", &["C22", "C14"]);
                    b = lib(|| VBox::new(o));
                    b = unsafe { VBox::from_raw(b.into_raw()) };
                    w.check(&b, "moving into a box again", &["C22", "C21", "C14"]);
                    balance("moving", "WideS", w.toks() + lost, &["C22", "C21"]);
                }
            }
        }
        lib(|| drop(b));
        ctx::max("max.wide_struct_elements", (w.n + w.m + w.w) as u64);
        ctx::distinct(mix(w.v, w.n as u64));
        ctx::sample(|| format!("WideS with {}, {}, {} and a text of {}", w.n, w.m, w.w, w.text.len()));
    }
    balance("dropping it", "WideS", lost, &["C02"]);
    if galloc::ON {
        let d = galloc::totals().live_blocks as i64 - live0 as i64;
        vassert!(["C07", "C03"], d == 0, "WideS: {} blocks remain", d);
    }
    galloc::flush_quarantine();
    ctx::poll();
}

pub fn d_many(env: &Env, name: &str, no: u64) {
    type Run = (&'static str, &'static [&'static str], bool, fn(&mut Rng));
    fn runs() -> Vec<Run> {
        let mut v: Vec<Run> = Vec::new();
        macro_rules! kinds {
            ($($k:ty),*) => {
                $(
                    v.push((<$k>::NAME, <$k>::FOR, <$k as Kind>::toks(7) > 0, many_case::<$k, UncheckedIndexing>));
                    v.push((<$k>::NAME, <$k>::FOR, <$k as Kind>::toks(7) > 0, many_case::<$k, CheckedIndexing>));
                )*
            };
        }
        kinds!(KStr8, KByte, KZst, KTok, KToks, KTup, KWords, KLine, KStruct, KNt);
        macro_rules! wide {
            ($($e:ty, $l:ty);*) => {
                $(v.push((concat!("Array<", stringify!($e), ",", stringify!($l), ">"), &[], <$e as Elem>::TOKS > 0, wide_case::<$e, $l>));)*
            };
        }
        for _ in 0..3 {
            v.push(("struct WideS", &["C17", "C18", "C19"], true, wide_struct_case));
        }
        wide!(u8, u32; u16, usize; Tok, u32; TokS, u64; u64, u16; [u8; 3], u32; ZTok, u32; u8, u64);
        v
    }
    let mut rs = user(runs);
    match env.prop.as_str() {
        p @ ("C17" | "C18" | "C19" | "C23") => rs.retain(|x| x.1.contains(&p)),
        "C03" => rs.retain(|x| x.2),
        "C20" => rs.retain(|x| (x.0.starts_with("Array<") && x.1.is_empty() && x.0 != KToks::NAME && x.0 != KWords::NAME) || x.0 == "struct WideS"),
        "C10" | "C11" | "C12" | "C14" | "C13" => rs.retain(|x| !x.0.starts_with("Array<") || !x.1.is_empty() || x.0 == KToks::NAME || x.0 == KWords::NAME),
        _ => {}
    }
    let k = (no % rs.len() as u64) as usize;
    ctx::case(name, no, rs[k].0, |r| (rs[k].3)(r))
}
