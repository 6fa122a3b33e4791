//! Reference semantics of every type shape: how to generate a value, how to build it with each
//! initializer, how to read it through every accessor, where each part must lie in memory.
use crate::ctx::{self, fail};
use crate::elem::{via, Elem};
use crate::galloc::{self, lib, user};
use crate::rng::Rng;
use crate::tok;
use crate::vassert;
use std::cell::Cell;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;
use std::ptr::NonNull;
use varlen::array::{Array, ArrayLen, SizedInit};
use varlen::array_init::{ArrayInitializer, CloneFrom, FillSequentially, FromIterPrefix, MoveFrom};
use varlen::prelude::*;
use varlen::Initializer;
use varlen::Layout as _;

/// The model of a value.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Val {
    E(u64),
    A(Vec<u64>),
    S(String),
    T(Vec<Val>),
}
impl Val {
    pub fn t(&self) -> &Vec<Val> {
        match self {
            Val::T(v) => v,
            _ => panic!("harness: not a tuple value"),
        }
    }
    pub fn tm(&mut self) -> &mut Vec<Val> {
        match self {
            Val::T(v) => v,
            _ => panic!("harness: not a tuple value"),
        }
    }
    pub fn e(&self) -> u64 {
        match self {
            Val::E(x) => *x,
            _ => panic!("harness: not an element value"),
        }
    }
    pub fn a(&self) -> &Vec<u64> {
        match self {
            Val::A(v) => v,
            _ => panic!("harness: not an array value"),
        }
    }
    pub fn am(&mut self) -> &mut Vec<u64> {
        match self {
            Val::A(v) => v,
            _ => panic!("harness: not an array value"),
        }
    }
    pub fn s(&self) -> &String {
        match self {
            Val::S(v) => v,
            _ => panic!("harness: not a string value"),
        }
    }
    /// Short rendering for messages.
    pub fn brief(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() > 160 {
            let mut n = 150;
            while !s.is_char_boundary(n) {
                n -= 1
            }
            format!("{}... ({} chars)", &s[..n], s.len())
        } else {
            s
        }
    }
    pub fn leaves(&self) -> usize {
        match self {
            Val::E(_) => 1,
            Val::A(v) => v.len() + 1,
            Val::S(s) => s.len() / 8 + 1,
            Val::T(v) => v.iter().map(|x| x.leaves()).sum::<usize>() + 1,
        }
    }
    /// A hash of the shape (not of the contents).
    pub fn shape(&self, h: u64) -> u64 {
        use crate::rng::mix;
        match self {
            Val::E(_) => mix(h, 1),
            Val::A(v) => mix(h, 100 + v.len() as u64),
            Val::S(s) => mix(h, 7_000_000 + s.len() as u64),
            Val::T(v) => v.iter().fold(mix(h, 3), |h, x| x.shape(h)),
        }
    }
}

/// Generator state.
pub struct Gen {
    pub r: Rng,
    pub max_len: usize,
    /// Only direct initializers, no temporaries.
    pub direct: bool,
    pub depth: u32,
}
impl Gen {
    pub fn new(r: Rng) -> Gen {
        Gen { r, max_len: 40, direct: false, depth: 0 }
    }
    pub fn u64(&mut self) -> u64 {
        let x = self.r.u64();
        match x % 8 {
            0 => x >> 60,
            1 => !0,
            2 => 1u64 << (x >> 58),
            _ => x,
        }
    }
    pub fn len(&mut self, cap: usize) -> usize {
        const B: [usize; 26] = [
            1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257,
        ];
        let n = match self.r.weighted(&[14, 30, 20, 10, 12, 3]) {
            0 => 0,
            1 => self.r.range(1, 4),
            2 => self.r.range(5, 16),
            3 => self.r.range(17, 64),
            4 => *self.r.pick(&B),
            // Around the powers of two.
            _ if self.max_len > 300 && self.r.chance(1, 2) => {
                let k = self.r.range(8, (usize::BITS - 1 - self.max_len.leading_zeros()) as usize);
                (1usize << k) - 1 + self.r.below(3)
            }
            _ => self.r.range(0, self.max_len),
        };
        n.min(self.max_len).min(cap)
    }
    pub fn text(&mut self, max_bytes: usize) -> String {
        let want = self.len(max_bytes);
        self.text_of(want)
    }
    /// A text of exactly `want` bytes, mixing characters of all widths.
    pub fn text_of(&mut self, want: usize) -> String {
        let mut s = String::with_capacity(want);
        let style = self.r.below(4);
        while s.len() < want {
            let left = want - s.len();
            let w = match style {
                0 => 1,
                1 => self.r.range(1, 4),
                2 => 4,
                _ => *self.r.pick(&[1, 1, 1, 2, 3]),
            }
            .min(left);
            let c = match w {
                1 => char::from_u32(match self.r.below(10) {
                    0 => 0,
                    1 => 0x7f,
                    _ => 0x20 + self.r.below(0x5e) as u32,
                }),
                2 => char::from_u32(0x80 + self.r.below(0x780) as u32),
                3 => char::from_u32(if self.r.chance(1, 2) {
                    0x800 + self.r.below(0xD800 - 0x800) as u32
                } else {
                    0xE000 + self.r.below(0x1FFF) as u32
                }),
                _ => char::from_u32(0x10000 + self.r.below(0x10_0000) as u32),
            };
            s.push(c.unwrap());
        }
        s
    }
}

/// What was observed while reading an object: addresses and extents of its parts.
#[derive(Default)]
pub struct Obs {
    pub leaves: Vec<(usize, usize)>,
    /// (address, size, align) of fixed-length parts, and the header they must lie in.
    pub inside: Vec<(usize, usize, usize, usize, usize)>,
}

pub struct Caps<T: Spec> {
    pub vclone: Option<for<'a> fn(&'a T) -> Dyn<'a, T>>,
    pub vcopy: Option<for<'a> fn(&'a T) -> Dyn<'a, T>>,
    pub bclone: Option<fn(Option<&mut VBox<T>>, &VBox<T>) -> Option<VBox<T>>>,
}
/// `clone_from` into `d`, or `clone`.
pub fn cloned<X: Clone>(d: Option<&mut X>, a: &X) -> Option<X> {
    match d {
        Some(d) => {
            d.clone_from(a);
            None
        }
        None => Some(a.clone()),
    }
}
impl<T: Spec> Clone for Caps<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T: Spec> Copy for Caps<T> {}
impl<T: Spec> Caps<T> {
    pub fn none() -> Self {
        Caps { vclone: None, vcopy: None, bclone: None }
    }
}

/// Outcome of a request to replace the layout-controlling fields.
pub enum Ctl {
    None,
    /// (result of the library, whether it had to succeed)
    Done { ok: bool, want: bool },
}

pub trait Spec: VarLen + 'static {
    /// Reference alignment.
    const RALIGN: usize;
    /// Reference for "dropping this does something".
    const RDROP: bool;
    /// User struct with controlling fields.
    const HAS_CTL: bool = false;
    fn name() -> String;
    fn gen(g: &mut Gen) -> Val;
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>);
    fn init(v: &Val, g: &mut Gen) -> Dyn<'static, Self>;
    fn read(&self, o: &mut Obs) -> Val;
    fn mutate(self: Pin<&mut Self>, v: &mut Val, g: &mut Gen);
    fn toks(v: &Val) -> usize;
    /// Number of values in `v` whose `Clone` is counted.
    fn events(v: &Val) -> usize;
    fn caps() -> Caps<Self> {
        Caps::none()
    }
    /// Tries to replace the controlling fields and updates the model accordingly. With `panic_drop`,
    /// a destructor of a replaced value may panic.
    fn ctl(self: Pin<&mut Self>, _v: &mut Val, _g: &mut Gen) -> Ctl {
        Ctl::None
    }
    /// An initializer for an object whose exact size does not fit the address space.
    fn huge(_g: &mut Gen) -> Option<Dyn<'static, Self>> {
        None
    }
}
/// A length with `n * size > isize::MAX`: products that wrap to something small, that barely overflow
/// the signed or unsigned range, or the largest length.
pub fn huge_len(size: usize, g: &mut Gen) -> Option<usize> {
    if size == 0 {
        return None;
    }
    let wrap = (usize::MAX / size).wrapping_add(1);
    let n = match g.r.below(6) {
        0 => usize::MAX,
        1 => isize::MAX as usize / size + 1 + g.r.below(3),
        2 => usize::MAX / size,
        3 => wrap.checked_add(g.r.below(9))?,
        4 => (wrap.checked_mul(1 + g.r.below(size))).unwrap_or(usize::MAX - g.r.below(3)),
        _ => usize::MAX - g.r.below(64),
    };
    if (n as u128) * (size as u128) > isize::MAX as u128 {
        Some(n)
    } else {
        None
    }
}

pub fn up(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}
pub fn ref_size<T: Spec>(v: &Val) -> usize {
    let mut at = 0;
    T::place(v, &mut at, &mut Vec::new());
    at
}

// ---------------------------------------------------------------- dynamic initializers

pub trait Erased<T: VarLen> {
    fn lay(&self) -> Option<T::Layout>;
    unsafe fn ini(self: Box<Self>, dst: NonNull<T>, l: T::Layout);
}
impl<T: VarLen, I: Initializer<T>> Erased<T> for I {
    fn lay(&self) -> Option<T::Layout> {
        self.calculate_layout_cautious()
    }
    unsafe fn ini(self: Box<Self>, dst: NonNull<T>, l: T::Layout) {
        let me = *self;
        me.initialize(dst, l)
    }
}

/// A type-erased initializer that watches every construction it is used for.
pub struct Dyn<'a, T: Spec> {
    inner: Box<dyn Erased<T> + 'a>,
    want_size: Option<usize>,
    kind: &'static str,
}
pub fn dyn_of<'a, T: Spec, I: Initializer<T> + 'a>(i: I) -> Dyn<'a, T> {
    Dyn { inner: user(|| Box::new(i) as Box<dyn Erased<T> + 'a>), want_size: None, kind: "direct" }
}
impl<'a, T: Spec> Dyn<'a, T> {
    pub fn kind(mut self, k: &'static str) -> Self {
        self.kind = k;
        self
    }
    pub fn want(mut self, n: usize) -> Self {
        self.want_size = Some(n);
        self
    }
}

thread_local! {
    /// Set while objects are created in an arena (whose chunks the monitor may not know).
    pub static ARENA: Cell<bool> = const { Cell::new(false) };
    static INITS: Cell<u64> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static DONE: Cell<u64> = const { Cell::new(0) };
}
pub fn inits_seen() -> u64 {
    INITS.with(|i| i.get())
}
/// Number of outermost constructions that were completed.
pub fn inits_done() -> u64 {
    DONE.with(|i| i.get())
}
struct DepthGuard;
impl DepthGuard {
    fn new() -> Self {
        DEPTH.with(|d| d.set(d.get() + 1));
        DepthGuard
    }
    fn done(self) {
        if DEPTH.with(|d| d.get()) == 1 {
            DONE.with(|d| d.set(d.get() + 1));
        }
    }
}
impl Drop for DepthGuard {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
    }
}
const L05: [&str; 5] = ["C05", "C01", "C06", "C18", "C23"];
const WIN: usize = 512;

struct Window {
    lo: usize,
    hi: usize,
    pre: Vec<u8>,
    post: Vec<u8>,
}
fn snap(lo: usize, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(unsafe { std::ptr::read_volatile((lo + i) as *const u8) });
    }
    v
}
fn before<T: Spec>(dst: NonNull<T>, size: usize, kind: &str) -> Option<Window> {
    INITS.with(|i| i.set(i.get() + 1));
    let a = dst.as_ptr() as usize;
    let arena: &[&'static str] = &["C22", "C05", "C01", "C06"];
    vassert!(if ARENA.with(|x| x.get()) { arena } else { &L05[..] }, a % T::RALIGN == 0, "{}: constructed at {:#x}, which is not aligned to {}", T::name(), a, T::RALIGN);
    if !galloc::ON || size == 0 {
        return None;
    }
    match galloc::block_of(a) {
        Some((start, bsize, balign)) => {
            let end = start + bsize;
            if a + size > end {
                fail(
                    &["C05", "C01", "C02", "C08", "C10", "C18", "C23"],
                    format!("{} ({}): construction of {} bytes at offset {} of a block of {} bytes", T::name(), kind, size, a - start, bsize),
                );
                return None;
            }
            vassert!(
                ["C05", "C01", "C07", "C06"],
                ARENA.with(|x| x.get()) || balign >= T::RALIGN,
                "{}: block aligned to {} holds an object of alignment {}",
                T::name(),
                balign,
                T::RALIGN
            );
            let lo = start.max(a.saturating_sub(WIN));
            let hi = end.min(a + size + WIN);
            Some(Window { lo, hi, pre: snap(lo, a - lo), post: snap(a + size, hi - a - size) })
        }
        None => {
            vassert!(
                ["C05", "C01", "C07"],
                ARENA.with(|x| x.get()),
                "{}: constructed at {:#x}, outside every block of the library",
                T::name(),
                a
            );
            None
        }
    }
}
fn after<T: Spec>(dst: NonNull<T>, size: usize, kind: &str, w: Option<Window>, want: Option<usize>) {
    let a = dst.as_ptr() as usize;
    if let Some(w) = w {
        let pre = snap(w.lo, w.pre.len());
        let post = snap(a + size, w.hi - a - size);
        if pre != w.pre {
            let i = (0..pre.len()).rev().find(|i| pre[*i] != w.pre[*i]).unwrap();
            fail(&L05, format!("{} ({}): construction wrote {} bytes before the object", T::name(), kind, pre.len() - i));
        }
        if post != w.post {
            let i = (0..post.len()).find(|i| post[*i] != w.post[*i]).unwrap();
            fail(&L05, format!("{} ({}): construction wrote {} bytes behind an object of {} bytes", T::name(), kind, i + 1, size));
        }
    }
    let got = unsafe { dst.as_ref() }.calculate_layout().size();
    vassert!(L05, got == size, "{} ({}): predicted size {} but the object has size {}", T::name(), kind, size, got);
    if let Some(want) = want {
        vassert!(["C06", "C05", "C18", "C23", "C08"], size == want, "{} ({}): size {} instead of {}", T::name(), kind, size, want);
    }
}

unsafe impl<'a, T: Spec> Initializer<T> for Dyn<'a, T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        self.inner.lay()
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        let size = layout.size();
        let kind = self.kind;
        let want = self.want_size;
        let guard = DepthGuard::new();
        let w = user(|| before::<T>(dst, size, kind));
        self.inner.ini(dst, layout);
        user(|| after::<T>(dst, size, kind, w, want));
        guard.done();
    }
}

/// Clone of an owned source.
struct CloneVia<T: Spec> {
    src: VBox<T>,
    f: for<'a> fn(&'a T) -> Dyn<'a, T>,
}
unsafe impl<T: Spec> Initializer<T> for CloneVia<T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        (self.f)(&self.src).calculate_layout_cautious()
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        (self.f)(&self.src).initialize(dst, layout)
    }
}
/// `Owned` taken out of a temporary sequence.
struct OwnedVia<T: Spec> {
    owned: Owned<'static, T>,
    _seq: Box<Seq<T>>,
}
unsafe impl<T: Spec> Initializer<T> for OwnedVia<T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        self.owned.calculate_layout_cautious()
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        self.owned.initialize(dst, layout)
    }
}

/// Builds `v` with a randomly chosen initializer, possibly through a temporary box or sequence.
pub fn make<T: Spec>(v: &Val, g: &mut Gen) -> Dyn<'static, T> {
    let caps = T::caps();
    make_with(v, g, caps)
}
pub fn make_with<T: Spec>(v: &Val, g: &mut Gen, caps: Caps<T>) -> Dyn<'static, T> {
    let want = ref_size::<T>(v);
    if g.direct || g.depth > 2 {
        return T::init(v, g).want(want);
    }
    g.depth += 1;
    let k = g.r.weighted(&[60, 12, 10, 10, 8]);
    let d = match k {
        1 => {
            let i = T::init(v, g);
            let b = lib(|| VBox::new(i));
            ctx::count("init.vbox");
            dyn_of(b).kind("vbox")
        }
        2 => {
            let mut s: Box<Seq<T>> = Box::new(Seq::new());
            let i = T::init(v, g);
            let o = lib(|| {
                s.push(i);
                let o = s.take_elems().next();
                // The lifetime is that of the boxed sequence, which is kept next to it.
                unsafe { std::mem::transmute::<Option<Owned<'_, T>>, Option<Owned<'static, T>>>(o) }
            });
            ctx::count("init.owned");
            match o {
                Some(o) => dyn_of(OwnedVia { owned: o, _seq: s }).kind("owned"),
                None => {
                    fail(&["C10", "C14", "C02"], format!("{}: a sequence with one element yields none", T::name()));
                    T::init(v, g)
                }
            }
        }
        3 if caps.vclone.is_some() => {
            let i = T::init(v, g);
            let src = lib(|| VBox::new(i));
            ctx::count("init.vclone");
            dyn_of(CloneVia { src, f: caps.vclone.unwrap() }).kind("vclone")
        }
        4 if caps.vcopy.is_some() => {
            let i = T::init(v, g);
            let src = lib(|| VBox::new(i));
            ctx::count("init.vcopy");
            dyn_of(CloneVia { src, f: caps.vcopy.unwrap() }).kind("vcopy")
        }
        _ => {
            ctx::count("init.direct");
            T::init(v, g)
        }
    };
    g.depth -= 1;
    d.want(want)
}

// ---------------------------------------------------------------- array initializers

/// A type-erased array initializer that watches the slots it is given.
pub struct DynArr<T> {
    f: Box<dyn FnOnce(&mut [MaybeUninit<T>])>,
    n: Option<usize>,
}
impl<T> DynArr<T> {
    pub fn new(f: impl FnOnce(&mut [MaybeUninit<T>]) + 'static) -> Self {
        DynArr { f: Box::new(f), n: None }
    }
    pub fn expect_len(mut self, n: usize) -> Self {
        self.n = Some(n);
        self
    }
}
unsafe impl<T> ArrayInitializer<T> for DynArr<T> {
    fn initialize(self, dst: &mut [MaybeUninit<T>]) {
        user(|| {
            let a = dst.as_ptr() as usize;
            vassert!(L05, a % align_of::<T>() == 0, "array initialized at {:#x}, element alignment {}", a, align_of::<T>());
            if let Some(n) = self.n {
                vassert!(
                    ["C18", "C20", "C05", "C02", "C08"],
                    dst.len() == n,
                    "array initializer was given {} slots instead of {}",
                    dst.len(),
                    n
                );
            }
        });
        (self.f)(dst)
    }
}

/// Fills the slots in reverse order (a user-written initializer).
struct Reverse<E: Elem>(Vec<u64>, std::marker::PhantomData<E>);
unsafe impl<E: Elem> ArrayInitializer<E> for Reverse<E> {
    fn initialize(self, dst: &mut [MaybeUninit<E>]) {
        for i in (0..dst.len()).rev() {
            dst[i].write(user(|| E::mk(self.0[i])));
        }
    }
}

fn mk_all<E: Elem>(xs: &[u64]) -> Vec<E> {
    xs.iter().map(|x| E::mk(*x)).collect()
}
pub const C20T: [&str; 6] = ["C20", "C02", "C18", "C10", "C15", "C19"];

/// An array initializer of a randomly chosen kind for exactly these values.
pub fn arr_init<E: Elem>(xs: &[u64], g: &mut Gen) -> DynArr<E> {
    let n = xs.len();
    let k = g.r.below(8);
    let xs: Vec<u64> = xs.to_vec();
    let d = match k {
        0 => {
            ctx::count("arr.from_iter");
            let extra = g.r.below(3);
            DynArr::new(move |dst| {
                let pulled = user(|| std::rc::Rc::new(Cell::new(0usize)));
                let p2 = pulled.clone();
                let it = user(|| {
                    xs.into_iter().chain((0..extra).map(|i| i as u64)).map(move |x| {
                        p2.set(p2.get() + 1);
                        tok::tick(tok::ITER);
                        user(|| E::mk(x))
                    })
                });
                let n = dst.len();
                FromIterPrefix(it).initialize(dst);
                user(|| {
                    vassert!(C20T, pulled.get() == n, "{} items taken from the iterator for {} slots", pulled.get(), n);
                });
            })
        }
        1 => match E::arr_copy(mk_all(&xs)) {
            Some(d) => {
                ctx::count("arr.copy");
                d
            }
            None => move_init(xs),
        },
        2 => match E::arr_clone(mk_all(&xs)) {
            Some(d) => {
                ctx::count("arr.clone");
                d
            }
            None => move_init(xs),
        },
        3 => move_init(xs),
        4 => {
            ctx::count("arr.reverse");
            DynArr::new(move |dst| Reverse::<E>(xs, std::marker::PhantomData).initialize(dst))
        }
        5 if !xs.is_empty() && xs.iter().all(|x| *x == E::dflt()) && E::arr_default().is_some() => {
            ctx::count("arr.default");
            E::arr_default().unwrap()
        }
        _ => {
            ctx::count("arr.fill_seq");
            DynArr::new(move |dst| {
                let next = Cell::new(0usize);
                let n = dst.len();
                FillSequentially(|i: usize| {
                    user(|| {
                        vassert!(C20T, i == next.get(), "slot function called for {} when {} is next", i, next.get());
                        next.set(i + 1);
                        E::mk(xs.get(i).copied().unwrap_or(0))
                    })
                })
                .initialize(dst);
                user(|| vassert!(C20T, next.get() == n, "slot function called {} times for {} slots", next.get(), n));
                drop(xs);
            })
        }
    };
    d.expect_len(n)
}
fn move_init<E: Elem>(xs: Vec<u64>) -> DynArr<E> {
    fn mv<E: Elem, const N: usize>(xs: Vec<u64>) -> DynArr<E> {
        let v: Vec<E> = mk_all(&xs);
        let a: [E; N] = v.try_into().ok().expect("harness: length");
        ctx::count("arr.move");
        DynArr::new(move |dst| MoveFrom(a).initialize(dst))
    }
    match xs.len() {
        0 => mv::<E, 0>(xs),
        1 => mv::<E, 1>(xs),
        2 => mv::<E, 2>(xs),
        3 => mv::<E, 3>(xs),
        8 => mv::<E, 8>(xs),
        17 => mv::<E, 17>(xs),
        _ => {
            // CloneFrom-like fallback for other lengths: move out of a vector.
            let v: Vec<E> = mk_all(&xs);
            ctx::count("arr.iter_move");
            DynArr::new(move |dst| FromIterPrefix(v.into_iter()).initialize(dst))
        }
    }
}
#[allow(dead_code)]
fn unused<E: Elem + Clone>(v: Vec<E>) -> DynArr<E> {
    via(v, |s, d| CloneFrom(s).initialize(d))
}

// ---------------------------------------------------------------- FixedLen

impl<E: Elem> Spec for FixedLen<E> {
    const RALIGN: usize = align_of::<E>();
    const RDROP: bool = std::mem::needs_drop::<E>();
    fn name() -> String {
        format!("FixedLen<{}>", E::NAME)
    }
    fn gen(g: &mut Gen) -> Val {
        Val::E(E::norm(g.u64()))
    }
    fn place(_v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<E>()));
        *at += size_of::<E>();
    }
    fn init(v: &Val, _g: &mut Gen) -> Dyn<'static, Self> {
        dyn_of(FixedLen(E::mk(v.e())))
    }
    fn read(&self, o: &mut Obs) -> Val {
        o.leaves.push((&self.0 as *const E as usize, size_of::<E>()));
        Val::E(self.0.get())
    }
    fn mutate(self: Pin<&mut Self>, v: &mut Val, g: &mut Gen) {
        let x = g.u64();
        let m = &mut self.get_mut().0;
        if g.r.chance(1, 4) {
            let old = std::mem::replace(m, E::mk(x));
            let got = old.get();
            vassert!(["C02", "C16"], got == v.e(), "replaced value was {} instead of {}", got, v.e());
        } else {
            m.set(x);
        }
        *v = Val::E(E::norm(x));
    }
    fn toks(_v: &Val) -> usize {
        E::TOKS
    }
    fn events(_v: &Val) -> usize {
        E::EVENTS
    }
    fn caps() -> Caps<Self> {
        Caps {
            vclone: if E::CLONE { Some(|a| E::fix_vclone(a).unwrap()) } else { None },
            vcopy: if E::COPY { Some(|a| E::fix_vcopy(a).unwrap()) } else { None },
            bclone: if E::CLONE { Some(E::fix_bclone) } else { None },
        }
    }
}

// ---------------------------------------------------------------- Array

pub trait LenT: ArrayLen + std::fmt::Debug + PartialEq {
    const MAXLEN: usize;
    const LNAME: &'static str;
    fn of(n: usize) -> Self;
    /// `Array::copy` and `Array::clone_from_slice`, which exist for the default length type.
    fn copy_all<E: Elem + Copy>(_src: &[E]) -> Option<Dyn<'_, Array<E, Self>>> {
        None
    }
    fn clone_all<E: Elem + Clone>(_src: &[E]) -> Option<Dyn<'_, Array<E, Self>>> {
        None
    }
}
macro_rules! lent {
    ($($t:ident { $($more:tt)* })*) => {$(
        impl LenT for $t {
            const MAXLEN: usize = if <$t>::BITS >= 64 { usize::MAX } else { <$t>::MAX as usize };
            const LNAME: &'static str = stringify!($t);
            fn of(n: usize) -> Self { n as $t }
            $($more)*
        }
    )*}
}
lent!(u8 {} u16 {} u32 {} u64 {} usize {
    fn copy_all<E: Elem + Copy>(src: &[E]) -> Option<Dyn<'_, Array<E>>> {
        Some(dyn_of(lib(|| Array::copy(src))))
    }
    fn clone_all<E: Elem + Clone>(src: &[E]) -> Option<Dyn<'_, Array<E>>> {
        Some(dyn_of(lib(|| Array::clone_from_slice(src))))
    }
});

fn mutate_slice<E: Elem>(s: &mut [E], v: &mut Vec<u64>, g: &mut Gen) {
    vassert!(["C02", "C16", "C05", "C18"], s.len() == v.len(), "mutable slice has {} elements instead of {}", s.len(), v.len());
    if s.is_empty() || s.len() != v.len() {
        return;
    }
    match g.r.below(6) {
        0 => {
            for (i, x) in s.iter_mut().enumerate() {
                let n = g.r.u64();
                x.set(n);
                v[i] = E::norm(n);
            }
        }
        1 => {
            let i = g.r.below(s.len());
            let j = g.r.below(s.len());
            s.swap(i, j);
            v.swap(i, j);
        }
        2 => {
            s.reverse();
            v.reverse();
        }
        3 => {
            let k = g.r.below(s.len() + 1);
            s.rotate_left(k);
            v.rotate_left(k);
        }
        4 => {
            // First and last.
            let l = s.len() - 1;
            for i in [0, l] {
                let n = g.u64();
                s[i].set(n);
                v[i] = E::norm(n);
            }
        }
        _ => {
            let i = g.r.below(s.len());
            let n = g.u64();
            s[i].set(n);
            v[i] = E::norm(n);
        }
    }
}

/// Generates the contents of an array: mostly arbitrary, sometimes all defaults.
pub fn gen_arr<E: Elem>(n: usize, g: &mut Gen) -> Vec<u64> {
    if g.r.chance(1, 6) {
        return vec![E::dflt(); n];
    }
    (0..n).map(|_| E::norm(g.r.u64())).collect()
}

impl<E: Elem, L: LenT> Spec for Array<E, L> {
    const RALIGN: usize = if align_of::<E>() > align_of::<L>() { align_of::<E>() } else { align_of::<L>() };
    const RDROP: bool = std::mem::needs_drop::<E>();
    fn name() -> String {
        format!("Array<{},{}>", E::NAME, L::LNAME)
    }
    fn gen(g: &mut Gen) -> Val {
        let n = g.len(L::MAXLEN);
        Val::A(gen_arr::<E>(n, g))
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<L>()));
        let a = up(*at + size_of::<L>(), align_of::<E>());
        let n = v.a().len() * size_of::<E>();
        lv.push((a, n));
        *at = a + n;
    }
    fn init(v: &Val, g: &mut Gen) -> Dyn<'static, Self> {
        let xs = v.a();
        if g.r.chance(1, 5) {
            // The constructors on the type itself, from a slice that outlives the initializer.
            let raw: *mut [E] = Box::into_raw(mk_all::<E>(xs).into_boxed_slice());
            let src: &'static [E] = unsafe { &*raw };
            struct Src<E: Elem, L: LenT> {
                d: Option<Dyn<'static, Array<E, L>>>,
                src: *mut [E],
            }
            impl<E: Elem, L: LenT> Drop for Src<E, L> {
                fn drop(&mut self) {
                    self.d = None;
                    drop(unsafe { Box::from_raw(self.src) });
                }
            }
            unsafe impl<E: Elem, L: LenT> Initializer<Array<E, L>> for Src<E, L> {
                fn calculate_layout_cautious(&self) -> Option<<Array<E, L> as VarLen>::Layout> {
                    self.d.as_ref().unwrap().calculate_layout_cautious()
                }
                unsafe fn initialize(mut self, dst: NonNull<Array<E, L>>, layout: <Array<E, L> as VarLen>::Layout) {
                    self.d.take().unwrap().initialize(dst, layout)
                }
            }
            let all = match g.r.below(4) {
                0 => E::copy_all::<L>(src),
                1 => E::clone_all::<L>(src),
                _ => None,
            };
            if all.is_some() {
                ctx::count("arr.of_slice");
            }
            let r = if all.is_some() { Some(all) } else if g.r.chance(1, 2) { E::try_copy::<L>(src).or_else(|| E::try_clone_from(src)) } else { E::try_clone_from::<L>(src) };
            match r {
                Some(Some(d)) => {
                    ctx::count("arr.try_from_slice");
                    return dyn_of(Src { d: Some(d), src: raw }).kind("slice");
                }
                Some(None) => {
                    fail(&["C08", "C02", "C20"], format!("{}: {} elements refused", Self::name(), xs.len()));
                }
                None => {}
            }
            drop(unsafe { Box::from_raw(raw) });
        }
        dyn_of(SizedInit(L::of(xs.len()), arr_init::<E>(xs, g)))
    }
    fn huge(g: &mut Gen) -> Option<Dyn<'static, Self>> {
        if L::MAXLEN != usize::MAX {
            return None;
        }
        let n = huge_len(size_of::<E>(), g)?;
        ctx::trace(|| format!("(length {:#x} of {} bytes each)", n, size_of::<E>()));
        Some(
            dyn_of(SizedInit(
                L::of(n),
                DynArr::new(|_d: &mut [MaybeUninit<E>]| {
                    fail(&["C08", "C01", "C05"], "initializer of an impossible length called".to_string());
                    std::panic::panic_any(crate::ctx::Planned)
                }),
            ))
            .kind("huge"),
        )
    }
    fn read(&self, o: &mut Obs) -> Val {
        o.leaves.push((self as *const Self as usize, size_of::<Self>()));
        let n = self.len_short();
        let s: &[E] = &self[..];
        o.leaves.push((s.as_ptr() as usize, std::mem::size_of_val(s)));
        vassert!(["C02", "C08", "C18"], n == L::of(s.len()), "{}: len_short {:?} but {} elements", Self::name(), n, s.len());
        Val::A(s.iter().map(|x| x.get()).collect())
    }
    fn mutate(self: Pin<&mut Self>, v: &mut Val, g: &mut Gen) {
        let s = self.mut_slice();
        mutate_slice(s, v.am(), g)
    }
    fn toks(v: &Val) -> usize {
        E::TOKS * v.a().len()
    }
    fn events(v: &Val) -> usize {
        E::EVENTS * v.a().len()
    }
    fn caps() -> Caps<Self> {
        Caps {
            vclone: if E::CLONE { Some(|a| E::arr_vclone(a).unwrap()) } else { None },
            vcopy: if E::COPY { Some(|a| E::arr_vcopy(a).unwrap()) } else { None },
            bclone: if E::CLONE { Some(E::arr_bclone::<L>) } else { None },
        }
    }
}
/// Mutates an array field handed out as a slice (user structs).
pub fn mutate_arr_field<E: Elem>(s: &mut [E], v: &mut Val, g: &mut Gen) {
    mutate_slice(s, v.am(), g)
}

// ---------------------------------------------------------------- Str

const C19T: [&str; 4] = ["C19", "C02", "C18", "C10"];

impl<L: LenT> Spec for Str<L> {
    const RALIGN: usize = align_of::<L>();
    const RDROP: bool = false;
    fn name() -> String {
        format!("Str<{}>", L::LNAME)
    }
    fn gen(g: &mut Gen) -> Val {
        Val::S(g.text(L::MAXLEN))
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<L>()));
        lv.push((*at + size_of::<L>(), v.s().len()));
        *at += size_of::<L>() + v.s().len();
    }
    fn init(v: &Val, _g: &mut Gen) -> Dyn<'static, Self> {
        struct Src<L: LenT>(String, std::marker::PhantomData<L>);
        unsafe impl<L: LenT> Initializer<Str<L>> for Src<L> {
            fn calculate_layout_cautious(&self) -> Option<<Str<L> as VarLen>::Layout> {
                Str::<L>::try_copy(&self.0).and_then(|i| i.calculate_layout_cautious())
            }
            unsafe fn initialize(self, dst: NonNull<Str<L>>, layout: <Str<L> as VarLen>::Layout) {
                Str::<L>::try_copy(&self.0).unwrap().initialize(dst, layout)
            }
        }
        let fits = Str::<L>::try_copy(v.s()).is_some();
        vassert!(["C19", "C08", "C02"], fits, "{}: text of {} bytes refused", Self::name(), v.s().len());
        dyn_of(Src::<L>(v.s().clone(), std::marker::PhantomData))
    }
    fn read(&self, o: &mut Obs) -> Val {
        let s: &str = &self[..];
        o.leaves.push((self as *const Self as usize, size_of::<Self>()));
        o.leaves.push((s.as_ptr() as usize, s.len()));
        match std::str::from_utf8(s.as_bytes()) {
            Ok(t) => Val::S(t.to_string()),
            Err(e) => {
                fail(&C19T, format!("{}: not valid UTF-8: {}", Self::name(), e));
                Val::S(String::new())
            }
        }
    }
    fn mutate(self: Pin<&mut Self>, v: &mut Val, g: &mut Gen) {
        let s = self.mut_slice();
        vassert!(C19T, s.len() == v.s().len(), "mutable text has {} bytes instead of {}", s.len(), v.s().len());
        let mut m = v.s().clone();
        match g.r.below(3) {
            0 => {
                s.make_ascii_uppercase();
                m.make_ascii_uppercase();
            }
            1 => {
                s.make_ascii_lowercase();
                m.make_ascii_lowercase();
            }
            _ => {
                if m.is_char_boundary(m.len() / 2) {
                    let k = m.len() / 2;
                    let (a, b) = s.split_at_mut(k);
                    a.make_ascii_uppercase();
                    b.make_ascii_lowercase();
                    let (a, b) = m.split_at_mut(k);
                    a.make_ascii_uppercase();
                    b.make_ascii_lowercase();
                }
            }
        }
        *v = Val::S(m);
    }
    fn toks(_v: &Val) -> usize {
        0
    }
    fn events(_v: &Val) -> usize {
        0
    }
    fn caps() -> Caps<Self> {
        Caps {
            vclone: Some(|a| dyn_of(a.vclone())),
            vcopy: Some(|a| dyn_of(a.vcopy())),
            bclone: Some(cloned),
        }
    }
}

// ---------------------------------------------------------------- tuples

/// Checks that simultaneously live mutable parts are disjoint, inside the object, and where the shared
/// accessors said they are.
pub fn check_parts(name: &str, whole: (usize, usize), parts: &[(usize, usize)], shared: &[(usize, usize)]) {
    let t = ["C16", "C01", "C18", "C06"];
    for (i, (a, n)) in parts.iter().enumerate() {
        vassert!(t, *n == 0 || (*a >= whole.0 && a + n <= whole.0 + whole.1), "{}: mutable part {} outside the object", name, i);
        vassert!(t, *n == 0 || (*a, *n) == shared[i], "{}: mutable and shared access to part {} differ", name, i);
        for (j, (b, m)) in parts.iter().enumerate().skip(i + 1) {
            vassert!(t, *n == 0 || *m == 0 || a + n <= *b || b + m <= *a, "{}: mutable parts {} and {} overlap", name, i, j);
        }
    }
}
pub fn extent<T: VarLen>(t: &T) -> (usize, usize) {
    (t as *const T as usize, t.calculate_layout().size())
}

macro_rules! spec_tuple {
    ($tup:ident, $m:ident, $n:expr, $(($T:ident $i:tt $f:ident $h:ident)),*) => {
        impl<$($T: Spec),*> Spec for $tup<$($T),*> {
            const RALIGN: usize = {
                let a = [$($T::RALIGN),*];
                let mut i = 0;
                let mut r = 1;
                while i < a.len() { if a[i] > r { r = a[i] } i += 1; }
                r
            };
            const RDROP: bool = $($T::RDROP ||)* false;
            fn name() -> String {
                let v: Vec<String> = vec![$($T::name()),*];
                format!("{}<{}>", stringify!($tup), v.join(","))
            }
            fn gen(g: &mut Gen) -> Val { Val::T(vec![$($T::gen(g)),*]) }
            fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
                *at = up(*at, Self::RALIGN);
                let t = v.t();
                $( $T::place(&t[$i], at, lv); )*
            }
            fn init(v: &Val, g: &mut Gen) -> Dyn<'static, Self> {
                let t = v.t();
                dyn_of($m::Init($(make::<$T>(&t[$i], g)),*))
            }
            fn read(&self, o: &mut Obs) -> Val {
                vassert!(["C06", "C18"], size_of::<Self>() == 0, "{}: header is not empty", Self::name());
                let r = self.refs();
                Val::T(vec![$(r.$i.read(o)),*])
            }
            fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut Gen) {
                let whole = extent(self.as_ref().get_ref());
                let shared = { let r = self.refs(); [$(extent(r.$i)),*] };
                let m = self.as_mut().muts();
                let parts = [$(extent(m.$i.as_ref().get_ref())),*];
                check_parts("tuple", whole, &parts, &shared);
                let t = v.tm();
                let mask = g.r.range(1, (1 << $n) - 1);
                // All mutable parts are live at the same time; write to those chosen.
                let $m::Muts($($f),*) = m;
                $( if mask & (1 << $i) != 0 { $T::mutate($f, &mut t[$i], g); } )*
            }
            fn toks(v: &Val) -> usize { let t = v.t(); $( $T::toks(&t[$i]) + )* 0 }
            fn events(v: &Val) -> usize { let t = v.t(); $( $T::events(&t[$i]) + )* 0 }
            fn huge(g: &mut Gen) -> Option<Dyn<'static, Self>> {
                let pick = g.r.below($n);
                let mut n = 0;
                $(
                    let $f = if $i >= pick && n == 0 { $T::huge(g) } else { None };
                    if $f.is_some() { n += 1 }
                )*
                if n == 0 { return None }
                $(
                    let $f = match $f { Some(d) => d, None => { let v = $T::gen(g); $T::init(&v, g) } };
                )*
                Some(dyn_of($m::Init($($f),*)).kind("huge"))
            }
        }
    }
}
spec_tuple!(Tup2, tup2, 2, (A 0 f0 h0), (B 1 f1 h1));
spec_tuple!(Tup3, tup3, 3, (A 0 f0 h0), (B 1 f1 h1), (C 2 f2 h2));
spec_tuple!(Tup4, tup4, 4, (A 0 f0 h0), (B 1 f1 h1), (C 2 f2 h2), (D 3 f3 h3));
spec_tuple!(Tup5, tup5, 5, (A 0 f0 h0), (B 1 f1 h1), (C 2 f2 h2), (D 3 f3 h3), (F 4 f4 h4));
