//! Real objects of more than four gigabytes: long parts that nobody fills (their elements may be
//! uninitialized) take no memory, but everything behind them lies beyond 2^32.
use crate::ctx;
use crate::elem::Elem;
use crate::galloc::{self, lib, user};
use crate::rng::{mix, Rng};
use crate::run::Env;
use crate::tok::Tok;
use crate::vassert;
use bumpalo::Bump;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::ptr::NonNull;
use varlen::array::{Array, SizedInit};
use varlen::array_init::{ArrayInitializer, FillSequentially};
use varlen::prelude::*;
use varlen::Initializer;
use varlen::Layout as _;

type Mu = MaybeUninit<u8>;
/// Leaves every element as it is: uninitialized elements are valid.
struct Leave;
unsafe impl<T> ArrayInitializer<MaybeUninit<T>> for Leave {
    fn initialize(self, _dst: &mut [MaybeUninit<MaybeUninit<T>>]) {}
}
const BLOCK: usize = 1 << 25;
struct LeaveBlocks;
unsafe impl ArrayInitializer<[Mu; BLOCK]> for LeaveBlocks {
    fn initialize(self, _dst: &mut [MaybeUninit<[Mu; BLOCK]>]) {}
}
const T2: [&str; 6] = ["C02", "C05", "C08", "C18", "C23", "C16"];
const T6: [&str; 6] = ["C06", "C05", "C08", "C18", "C23", "C02"];

/// What an object was made of: the length of its vast part, the length of the tail, a number.
#[derive(Clone, Copy, Debug)]
struct D {
    g: usize,
    n: usize,
    x: u64,
}
fn toks(d: D) -> FillSequentially<impl FnMut(usize) -> Tok> {
    FillSequentially(move |i| user(|| Tok::mk(d.x + i as u64)))
}
fn see_toks(what: &str, s: &[Tok], d: D) {
    vassert!(T2, s.len() == d.n, "{} of {:x?}: the tail has {} elements", what, d, s.len());
    if s.len() == d.n {
        for (i, t) in s.iter().enumerate() {
            vassert!(T2, t.get() == Tok::norm(d.x + i as u64), "{} of {:x?}: element {} of the tail is {}", what, d, i, t.get());
        }
    }
}
fn set_toks(s: &mut [Tok], x: u64) {
    for (i, t) in s.iter_mut().enumerate() {
        t.set(x + i as u64)
    }
}
const TEXTS: [&str; 4] = ["", "x", "tail ✓", "the quick brown fox jumps over the lazy dog"];
fn text(d: D) -> &'static str {
    TEXTS[d.n % 4]
}
/// Writes around both ends of the vast part, and reads it back.
fn scribble(s: &mut [Mu], x: u64) {
    let n = s.len();
    if n == 0 {
        return;
    }
    for i in [0, n / 2, n - 1] {
        s[i].write((x as u8).wrapping_add(i as u8));
    }
    for i in [0, n / 2, n - 1] {
        assert!(unsafe { s[i].assume_init() } == (x as u8).wrapping_add(i as u8));
    }
}
fn at<T: ?Sized>(what: &str, d: D, base: usize, name: &str, p: &T, want: u128) {
    let off = (p as *const T as *const u8 as usize).wrapping_sub(base);
    vassert!(T6, off as u128 == want, "{} of {:x?}: {} lies at {:#x} instead of {:#x}", what, d, name, off, want);
}
fn up(x: u128, a: usize) -> u128 {
    (x + a as u128 - 1) / a as u128 * a as u128
}

trait Giant: VarLen + 'static {
    const WHAT: &'static str;
    /// Vast parts for this type.
    fn len(bytes: usize) -> usize {
        bytes
    }
    fn size(d: D) -> u128;
    /// Builds it, wherever.
    fn with<R>(d: D, k: impl FnOnce(Boxed<Self>) -> R) -> R;
    /// Compares everything that can be seen with what it was made of.
    fn look(&self, d: D);
    /// Changes the ends of the vast part and everything else.
    fn poke(self: Pin<&mut Self>, d: &mut D);
}
trait Erased<T: VarLen> {
    fn lay(&self) -> Option<T::Layout>;
    unsafe fn ini(self: Box<Self>, dst: NonNull<T>, l: T::Layout);
}
impl<T: VarLen, I: Initializer<T>> Erased<T> for I {
    fn lay(&self) -> Option<T::Layout> {
        self.calculate_layout_cautious()
    }
    unsafe fn ini(self: Box<Self>, dst: NonNull<T>, l: T::Layout) {
        let i = user(|| *self);
        i.initialize(dst, l)
    }
}
pub struct Boxed<T: VarLen>(Box<dyn Erased<T>>);
unsafe impl<T: VarLen> Initializer<T> for Boxed<T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        self.0.lay()
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        self.0.ini(dst, layout)
    }
}
fn bx<T: VarLen>(i: impl Initializer<T> + 'static) -> Boxed<T> {
    Boxed(user(|| Box::new(i)))
}

impl Giant for Array<Mu, u64> {
    const WHAT: &'static str = "Array<MaybeUninit<u8>,u64>";
    fn size(d: D) -> u128 {
        8 + d.g as u128
    }
    fn with<R>(d: D, k: impl FnOnce(Boxed<Self>) -> R) -> R {
        k(bx(SizedInit(d.g as u64, Leave)))
    }
    fn look(&self, d: D) {
        let b = self as *const Self as usize;
        vassert!(T2, self.len_short() == d.g as u64 && self[..].len() == d.g, "{} of {:x?} has length {:#x}", Self::WHAT, d, self[..].len());
        at(Self::WHAT, d, b, "the contents", &self[..], 8);
        at(Self::WHAT, d, b, "the last element", &self[d.g - 1], 7 + d.g as u128);
    }
    fn poke(self: Pin<&mut Self>, d: &mut D) {
        scribble(self.mut_slice(), d.x)
    }
}
impl Giant for Array<MaybeUninit<u16>, u32> {
    const WHAT: &'static str = "Array<MaybeUninit<u16>,u32>";
    fn len(bytes: usize) -> usize {
        (bytes / 2).min(u32::MAX as usize)
    }
    fn size(d: D) -> u128 {
        4 + 2 * d.g as u128
    }
    fn with<R>(d: D, k: impl FnOnce(Boxed<Self>) -> R) -> R {
        k(bx(SizedInit(d.g as u32, Leave)))
    }
    fn look(&self, d: D) {
        let b = self as *const Self as usize;
        vassert!(T2, self.len_short() as usize == d.g && self[..].len() == d.g, "{} of {:x?} has length {:#x}", Self::WHAT, d, self[..].len());
        at(Self::WHAT, d, b, "the last element", &self[d.g - 1], 2 + 2 * d.g as u128);
    }
    fn poke(self: Pin<&mut Self>, d: &mut D) {
        let s = self.mut_slice();
        s[d.g - 1].write(d.x as u16);
        s[0].write(d.x as u16);
    }
}
/// Alignment 1: offsets count bytes.
impl Giant for Array<[Mu; BLOCK], u8> {
    const WHAT: &'static str = "Array<[MaybeUninit<u8>;2^25],u8>";
    fn len(bytes: usize) -> usize {
        if bytes < BLOCK { 0 } else { (bytes / BLOCK).saturating_add(2).min(255) }
    }
    fn size(d: D) -> u128 {
        1 + d.g as u128 * BLOCK as u128
    }
    fn with<R>(d: D, k: impl FnOnce(Boxed<Self>) -> R) -> R {
        k(bx(SizedInit(d.g as u8, LeaveBlocks)))
    }
    fn look(&self, d: D) {
        let b = self as *const Self as usize;
        vassert!(T2, self.len_short() as usize == d.g && self[..].len() == d.g, "{} of {:x?} has length {:#x}", Self::WHAT, d, self[..].len());
        if d.g > 0 {
            at(Self::WHAT, d, b, "the last element", &self[d.g - 1], 1 + (d.g - 1) as u128 * BLOCK as u128);
        }
    }
    fn poke(self: Pin<&mut Self>, d: &mut D) {
        if d.g > 0 {
            scribble(&mut self.mut_slice()[d.g - 1], d.x)
        }
    }
}
type Three = Tup3<Array<Mu>, Array<Tok, u8>, Str<u8>>;
impl Giant for Three {
    const WHAT: &'static str = "Tup3<Array<MaybeUninit<u8>>,Array<Tok,u8>,Str<u8>>";
    fn size(d: D) -> u128 {
        let a = Array::<Tok, u8>::ALIGN;
        up(8 + d.g as u128, a) + up(1, std::mem::align_of::<Tok>()) + (d.n * std::mem::size_of::<Tok>()) as u128 + 1 + text(d).len() as u128
    }
    fn with<R>(d: D, k: impl FnOnce(Boxed<Self>) -> R) -> R {
        k(bx(tup3::Init(SizedInit(d.g, Leave), SizedInit(d.n as u8, toks(d)), user(|| Str::<u8>::try_copy(text(d)).unwrap()))))
    }
    fn look(&self, d: D) {
        let b = self as *const Self as usize;
        let r = self.refs();
        vassert!(T2, r.0.len() == d.g && &r.2[..] == text(d), "{} of {:x?}: lengths {:#x}, {}", Self::WHAT, d, r.0.len(), r.2.len());
        let a = Array::<Tok, u8>::ALIGN;
        let o1 = up(8 + d.g as u128, a);
        at(Self::WHAT, d, b, "field 0", r.0, 0);
        at(Self::WHAT, d, b, "field 1", r.1, o1);
        at(Self::WHAT, d, b, "the tail", &r.1[..], o1 + up(1, std::mem::align_of::<Tok>()));
        at(Self::WHAT, d, b, "field 2", r.2, Self::size(d) - 1 - text(d).len() as u128);
        see_toks(Self::WHAT, &r.1[..], d);
    }
    fn poke(mut self: Pin<&mut Self>, d: &mut D) {
        let m = self.as_mut().muts();
        d.x += 1000;
        scribble(m.0.mut_slice(), d.x);
        set_toks(m.1.mut_slice(), d.x);
        self.look(*d)
    }
}
/// A definition with a vast array between its length and its other fields.
#[define_varlen]
pub struct Gi {
    tag: u32,
    #[controls_layout]
    g: usize,
    #[controls_layout]
    n: u16,
    #[varlen_array]
    vast: [MaybeUninit<u8>; *g],
    #[varlen_array]
    mid: [u32; *n as usize],
    #[varlen]
    z: Array<u16, u8>,
    #[varlen_array]
    last: [Tok; *n as usize],
}
impl Giant for Gi {
    const WHAT: &'static str = "struct Gi";
    fn size(d: D) -> u128 {
        Self::offs(d)[4]
    }
    fn with<R>(d: D, k: impl FnOnce(Boxed<Self>) -> R) -> R {
        k(bx(gi::Init {
            tag: d.x as u32,
            g: d.g,
            n: d.n as u16,
            vast: Leave,
            mid: FillSequentially(move |i| d.x as u32 + i as u32),
            z: SizedInit(3u8, FillSequentially(move |i| d.x as u16 + i as u16)),
            last: toks(d),
        }))
    }
    fn look(&self, d: D) {
        let b = self as *const Self as usize;
        let r = self.refs();
        vassert!(
            T2,
            *r.g == d.g && *r.n as usize == d.n && r.vast.len() == d.g && r.mid.len() == d.n && r.z.len() == 3,
            "{} of {:x?}: lengths {:#x} {} / {:#x} {} {}", Self::WHAT, d, r.g, r.n, r.vast.len(), r.mid.len(), r.z.len()
        );
        let o = Self::offs(d);
        at(Self::WHAT, d, b, "vast", r.vast, o[0]);
        at(Self::WHAT, d, b, "mid", r.mid, o[1]);
        at(Self::WHAT, d, b, "z", r.z, o[2]);
        at(Self::WHAT, d, b, "last", r.last, o[3]);
        vassert!(T2, r.mid.iter().enumerate().all(|(i, m)| *m == d.x as u32 + i as u32), "{} of {:x?}: mid {:?}", Self::WHAT, d, r.mid);
        vassert!(T2, r.z.iter().enumerate().all(|(i, m)| *m == d.x as u16 + i as u16), "{} of {:x?}: z {:?}", Self::WHAT, d, &r.z[..]);
        see_toks(Self::WHAT, r.last, d);
    }
    fn poke(mut self: Pin<&mut Self>, d: &mut D) {
        let t17 = ["C17", "C18", "C08"];
        // Other lengths are refused, also those that agree in their lower 32 or 16 bits.
        for (g, n) in [(d.g ^ (1 << 32), d.n), (d.g + (1 << 32), d.n), (d.g - 1, d.n), (d.g & 0xffff_ffff, d.n), (d.g, d.n ^ 256), (d.g, d.n), (usize::MAX, d.n)] {
            let ok = self.as_mut().try_set_layout_controllers(gi::LayoutControllers { g, n: n as u16 }).is_ok();
            vassert!(t17, ok == (g == d.g && n == d.n), "struct Gi of {:x?}: setting lengths {:#x}, {} {}", d, g, n, if ok { "is accepted" } else { "is refused" });
            ctx::count(if ok { "ctl_accepted" } else { "ctl_refused" });
        }
        d.x += 1000;
        let m = self.as_mut().muts();
        scribble(m.vast, d.x);
        for (i, x) in m.mid.iter_mut().enumerate() {
            *x = d.x as u32 + i as u32
        }
        for (i, x) in m.z.mut_slice().iter_mut().enumerate() {
            *x = d.x as u16 + i as u16
        }
        set_toks(m.last, d.x);
        self.look(*d)
    }
}
impl Gi {
    fn offs(d: D) -> [u128; 5] {
        #[allow(dead_code)]
        struct Head(u32, usize, u16);
        let o0 = std::mem::size_of::<Head>() as u128;
        let o1 = up(o0 + d.g as u128, 4);
        let o2 = up(o1 + 4 * d.n as u128, Array::<u16, u8>::ALIGN);
        let o3 = up(o2 + 2 + 6, std::mem::align_of::<Tok>());
        [o0, o1, o2, o3, o3 + (d.n * std::mem::size_of::<Tok>()) as u128]
    }
}
/// Vast part in the inner pair.
type Nest = Tup2<Tup2<FixedLen<u8>, Array<Mu>>, Tup2<Array<Tok, u8>, Str<u16>>>;
impl Giant for Nest {
    const WHAT: &'static str = "Tup2<Tup2<FixedLen<u8>,Array<MaybeUninit<u8>>>,Tup2<Array<Tok,u8>,Str<u16>>>";
    fn size(d: D) -> u128 {
        let o = 16 + d.g as u128;
        let t = up(up(1, std::mem::align_of::<Tok>()) + (d.n * std::mem::size_of::<Tok>()) as u128, 2) + 2 + text(d).len() as u128;
        up(o, Tup2::<Array<Tok, u8>, Str<u16>>::ALIGN) + t
    }
    fn with<R>(d: D, k: impl FnOnce(Boxed<Self>) -> R) -> R {
        k(bx(tup2::Init(
            tup2::Init(FixedLen(d.x as u8), SizedInit(d.g, Leave)),
            tup2::Init(SizedInit(d.n as u8, toks(d)), user(|| Str::<u16>::try_copy(text(d)).unwrap())),
        )))
    }
    fn look(&self, d: D) {
        let b = self as *const Self as usize;
        let r = self.refs();
        let (f, v) = (r.0.refs().0, r.0.refs().1);
        let (t, s) = (r.1.refs().0, r.1.refs().1);
        vassert!(T2, f.0 == d.x as u8 && v.len() == d.g && &s[..] == text(d), "{} of {:x?}: {} {:#x} {}", Self::WHAT, d, f.0, v.len(), s.len());
        let o1 = up(16 + d.g as u128, Tup2::<Array<Tok, u8>, Str<u16>>::ALIGN);
        at(Self::WHAT, d, b, "field 0.1", v, 8);
        at(Self::WHAT, d, b, "field 1", r.1, o1);
        at(Self::WHAT, d, b, "field 1.0", t, o1);
        at(Self::WHAT, d, b, "field 1.1", s, Self::size(d) - 2 - text(d).len() as u128);
        see_toks(Self::WHAT, &t[..], d);
    }
    fn poke(mut self: Pin<&mut Self>, d: &mut D) {
        d.x += 1000;
        let m = self.as_mut().muts();
        let i = m.0.muts();
        i.0.get_mut().0 = d.x as u8;
        scribble(i.1.mut_slice(), d.x);
        set_toks(m.1.muts().0.mut_slice(), d.x);
        self.look(*d)
    }
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct GiantNt(Tup2<Array<Mu, u64>, Array<Tok, u8>>);
    with init: pub struct GiantNtInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
impl Giant for GiantNt {
    const WHAT: &'static str = "newtype(Tup2<Array<MaybeUninit<u8>,u64>,Array<Tok,u8>>)";
    fn size(d: D) -> u128 {
        up(8 + d.g as u128, Array::<Tok, u8>::ALIGN) + up(1, std::mem::align_of::<Tok>()) + (d.n * std::mem::size_of::<Tok>()) as u128
    }
    fn with<R>(d: D, k: impl FnOnce(Boxed<Self>) -> R) -> R {
        k(bx(GiantNtInit(tup2::Init(SizedInit(d.g as u64, Leave), SizedInit(d.n as u8, toks(d))))))
    }
    fn look(&self, d: D) {
        let b = self as *const Self as usize;
        let r = self.inner().refs();
        vassert!(T2, r.0.len() == d.g, "{} of {:x?}: length {:#x}", Self::WHAT, d, r.0.len());
        at(Self::WHAT, d, b, "field 1", r.1, up(8 + d.g as u128, Array::<Tok, u8>::ALIGN));
        see_toks(Self::WHAT, &r.1[..], d);
    }
    fn poke(mut self: Pin<&mut Self>, d: &mut D) {
        d.x += 1000;
        let m = self.as_mut().inner_mut().muts();
        scribble(m.0.mut_slice(), d.x);
        set_toks(m.1.mut_slice(), d.x);
        self.look(*d)
    }
}

fn whole<T: Giant>(t: &T, d: D) {
    let l = t.calculate_layout().size();
    vassert!(["C05", "C08", "C18", "C23"], l as u128 == T::size(d), "{} of {:x?} says it has size {:#x} instead of {:#x}", T::WHAT, d, l, T::size(d));
    t.look(d);
}
fn predict<T: Giant>(d: D, i: &Boxed<T>) {
    let l = i.calculate_layout_cautious().map(|l| l.size());
    vassert!(["C05", "C08", "C18", "C23"], l.map(|l| l as u128) == Some(T::size(d)), "{} of {:x?}: predicted size {:x?} instead of {:#x}", T::WHAT, d, l, T::size(d));
}

fn in_box<T: Giant>(mut d: D) {
    T::with(d, |i| {
        predict(d, &i);
        if ctx::poisoned() {
            return;
        }
        let mut b = lib(|| VBox::new(i));
        if galloc::ON {
            let blk = galloc::block_of(&*b as *const T as usize);
            let want = T::size(d) as usize;
            vassert!(["C07", "C05", "C08"], matches!(blk, Some((p, s, _)) if p == &*b as *const T as usize && s == want), "{} of {:x?}: its block is {:x?} instead of {:#x} bytes", T::WHAT, d, blk, want);
        }
        lib(|| whole(&*b, d));
        if ctx::poisoned() {
            std::mem::forget(b);
            return;
        }
        lib(|| b.as_mut().poke(&mut d));
        lib(|| whole(&*b, d));
        ctx::poll();
        if !ctx::poisoned() {
            let p = lib(|| unsafe { b.into_raw() });
            let b = unsafe { VBox::from_raw(p) };
            whole(&*b, d);
            lib(|| drop(b));
            ctx::poll();
            ctx::count("giant.boxes");
        }
    })
}
fn in_arena<T: Giant>(mut d: D) {
    let bump = Bump::new();
    let small = D { g: T::len(100), ..d };
    T::with(small, |i| {
        let first = lib(|| Owned::new_in(i, &bump));
        T::with(d, |i| {
            let mut o = lib(|| Owned::new_in(i, &bump));
            lib(|| whole(&*o, d));
            if ctx::poisoned() {
                return;
            }
            T::with(small, |i| {
                let last = lib(|| Owned::new_in(i, &bump));
                lib(|| o.as_mut().poke(&mut d));
                let (a, b, z) = (&*first as *const T as usize, &*o as *const T as usize, &*last as *const T as usize);
                let (sa, sb) = (T::size(small) as usize, T::size(d) as usize);
                let apart = |x: usize, n: usize| x + n <= b || b + sb <= x;
                vassert!(["C22", "C08"], apart(a, sa) && apart(z, sa), "{} of {:x?} at {:#x} overlaps its neighbours at {:#x} and {:#x} in the arena", T::WHAT, d, b, a, z);
                whole(&*first, small);
                whole(&*last, small);
                whole(&*o, d);
                lib(|| drop(o));
                whole(&*last, small);
                lib(|| drop((last, first)));
                ctx::poll();
                ctx::count("giant.arena");
            })
        })
    })
}
/// Whatever the kind of sequence.
fn in_seq<T: Giant, I: Indexing>(r: &mut Rng, d: D, mut s: Seq<T, I>, valid: Option<fn(&Seq<T, I>, usize) -> bool>, by: fn(&mut Seq<T, I>, usize, &mut dyn FnMut(Pin<&mut T>))) {
    let t10 = ["C10", "C02", "C08", "C11", "C12", "C06"];
    let mut have: Vec<(usize, D)> = user(Vec::new);
    let mut pos = 0u128;
    let before = r.below(3);
    let after = r.range(1, 3);
    for k in 0..before + 1 + after {
        let e = if k == before { d } else { D { g: r.range(1, 40), n: r.below(4), x: d.x + 77 * k as u64 } };
        let e = if T::len(100) == 0 && k != before { D { g: 0, ..e } } else { e };
        vassert!(["C12", "C10", "C08"], s.offset() as u128 * T::ALIGN as u128 == pos, "{}: before element {} the offset is {:#x}, the position {:#x}", T::WHAT, k, s.offset(), pos);
        have.push((s.offset(), e));
        T::with(e, |i| lib(|| s.push(i)));
        pos = up(pos + T::size(e).max(1), T::ALIGN);
        if ctx::poisoned() {
            std::mem::forget(s);
            return;
        }
    }
    let check = |s: &Seq<T, I>, have: &[(usize, D)]| {
        vassert!(t10, s.len() == have.len() && s.iter().len() == have.len(), "{}: {} elements instead of {}", T::WHAT, s.len(), have.len());
        vassert!(t10, s.capacity_in_offsets() >= s.offset(), "{}: capacity {:#x} below offset {:#x}", T::WHAT, s.capacity_in_offsets(), s.offset());
        let base = s.iter().next().unwrap() as *const T as usize;
        let mut n = 0;
        for (e, (o, d)) in s.iter().zip(have) {
            let a = e as *const T as usize - base;
            vassert!(t10, a == *o * T::ALIGN, "{}: element {} lies at {:#x} instead of {:#x}", T::WHAT, n, a, o * T::ALIGN);
            if ctx::poisoned() {
                return;
            }
            whole(e, *d);
            vassert!(["C12", "C08"], s.offset_of(e) == *o, "{}: element {} reports offset {:#x} instead of {:#x}", T::WHAT, n, s.offset_of(e), o);
            let f = unsafe { s.from_offset_unchecked(*o) };
            vassert!(["C12", "C08", "C02"], std::ptr::eq(e, f), "{}: offset {:#x} leads to another element", T::WHAT, o);
            n += 1;
        }
        vassert!(t10, n == have.len(), "{}: iteration yields {} elements", T::WHAT, n);
        if let Some(v) = valid {
            for (o, _) in have {
                for p in [*o, o.wrapping_add(1), o.wrapping_sub(1), o.wrapping_add(1 << 32), o.wrapping_sub(1 << 32), o & 0xffff_ffff, o ^ (1 << 31), o.wrapping_add(1 << 29)] {
                    let want = have.iter().any(|h| h.0 == p);
                    vassert!(["C11", "C08"], v(s, p) == want, "{}: offset {:#x} is {} (elements at {:x?})", T::WHAT, p, if want { "refused" } else { "accepted" }, have.iter().map(|h| h.0).collect::<Vec<_>>());
                }
            }
        }
    };
    lib(|| check(&s, &have));
    ctx::poll();
    if ctx::poisoned() {
        std::mem::forget(s);
        return;
    }
    // Through the mutable iterator, then by offsets.
    lib(|| {
        for (e, (_, d)) in s.iter_mut().zip(have.iter_mut()) {
            e.poke(d)
        }
    });
    for (o, d) in have.iter_mut() {
        by(&mut s, *o, &mut |e| e.poke(d));
    }
    lib(|| check(&s, &have));
    ctx::poll();
    if ctx::poisoned() {
        std::mem::forget(s);
        return;
    }
    let k = r.below(have.len() + 1);
    lib(|| {
        let mut it = s.take_elems();
        for (_, d) in have.iter().take(k) {
            let o = it.next().unwrap();
            whole(&*o, *d);
        }
        vassert!(["C14", "C10"], it.len() == have.len() - k, "{}: {} elements are left instead of {}", T::WHAT, it.len(), have.len() - k);
    });
    vassert!(["C10", "C14", "C11"], s.len() == 0 && s.offset() == 0 && s.iter().next().is_none(), "{}: not empty after all elements were taken", T::WHAT);
    if let Some(v) = valid {
        vassert!(["C11"], have.iter().all(|h| !v(&s, h.0)), "{}: an offset of a taken element is accepted", T::WHAT);
    }
    // And once more in the same storage.
    let e = D { x: d.x + 5, ..d };
    T::with(e, |i| lib(|| s.push(i)));
    let small = D { g: T::len(64), ..d };
    let o = s.offset();
    T::with(small, |i| lib(|| s.push(i)));
    if s.len() == 2 {
        whole(s.iter().next().unwrap(), e);
        whole(unsafe { s.from_offset_unchecked(o) }, small);
    }
    lib(|| drop(s));
    ctx::poll();
    ctx::count("giant.sequences");
}
fn all<T: Giant>(r: &mut Rng, heavy: bool) {
    let bytes = match r.below(6) {
        0 => (1 << 32) - r.range(0, 40),
        1 => (1 << 32) + r.range(0, 5000),
        2 => (1 << 32) + (r.range(0, 1 << 20) << 10),
        3 => (1 << 31) + r.below(1 << 16),
        4 => (1 << 32) + (1 << 31) + r.below(64),
        _ => (1 << 32) + (r.below(256) << r.range(8, 22)),
    };
    let d = D { g: T::len(bytes), n: r.below(6), x: r.below(200) as u64 };
    ctx::trace(|| format!("{} of {:x?}", T::WHAT, d));
    let live = crate::tok::live();
    in_box::<T>(d);
    if !ctx::poisoned() {
        in_arena::<T>(d);
    }
    if !ctx::poisoned() {
        let s: Seq<T, varlen::seq::UncheckedIndexing> = Seq::new_minimal();
        in_seq(r, d, s, None, |s, o, f| f(unsafe { s.from_offset_unchecked_mut(o) }));
    }
    // The marks of a sequence with checked offsets are written, all of them.
    if !ctx::poisoned() && (T::ALIGN >= 4 || heavy) {
        let s: Seq<T, varlen::seq::CheckedIndexing> = Seq::new_indexable();
        in_seq(r, d, s, Some(|s, o| s.is_offset_valid(o)), |s, o, f| f(s.from_offset_mut(o)));
        ctx::count("giant.indexable");
    }
    if !ctx::poisoned() {
        vassert!(["C03", "C08", "C14", "C05"], crate::tok::live() == live, "{} of {:x?}: {} values were never dropped", T::WHAT, d, crate::tok::live() - live);
    }
    ctx::distinct(mix(mix(d.g as u64, d.n as u64), T::WHAT.len() as u64));
    ctx::sample(|| format!("{} of {:x?}: {:#x} bytes in a box, an arena and sequences", T::WHAT, d, T::size(d)));
}
pub fn d_giant(env: &Env, name: &str, no: u64) {
    // One process at a time.
    if env.asan || env.shard != 0 || (no >= 28 && !env.thorough) {
        return;
    }
    ctx::case(name, no, "", |r| {
        galloc::grant(14 << 30);
        // Is there room at all?
        let l = std::alloc::Layout::from_size_align(13 << 30, 16).unwrap();
        let p = unsafe { std::alloc::alloc(l) };
        if p.is_null() {
            ctx::count("giant.no_room");
        } else {
            unsafe { std::alloc::dealloc(p, l) };
            match no % 7 {
                0 => all::<Array<Mu, u64>>(r, false),
                1 => all::<Three>(r, false),
                2 => all::<Gi>(r, false),
                3 => all::<Array<[Mu; BLOCK], u8>>(r, true),
                4 => all::<Nest>(r, false),
                5 => all::<GiantNt>(r, false),
                _ => all::<Array<MaybeUninit<u16>, u32>>(r, false),
            }
        }
        galloc::grant(0);
    })
}
