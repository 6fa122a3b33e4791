//! Drivers for properties that the histories reach too rarely: limits of lengths and sizes, failing
//! allocations, amortized cost, texts around limits, array initializers, threads.
use crate::ctx::{self, fail, Caught};
use crate::elem::*;
use crate::galloc::{self, lib, user};
use crate::rng::{mix, Rng};
use crate::run::Env;
use crate::spec::{huge_len, up, Erased, Gen, LenT};
use crate::tok::{self, Mark, Tok, TokS, ZMark, ZTok};
use crate::vassert;
use bumpalo::Bump;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;
use std::ptr::NonNull;
use varlen::array::{Array, ArrayLen, SizedInit};
use varlen::array_init::{new_array, ArrayInitializer, CloneFrom, CopyFrom, FillSequentially, FillWithDefault, FromIterPrefix, MoveFrom};
use varlen::prelude::*;
use varlen::Initializer;
use varlen::Layout as _;

// ---------------------------------------------------------------- sizes around the address space's limits

/// Type-erased initializer of any type.
pub struct BI<T: VarLen>(Box<dyn Erased<T>>);
unsafe impl<T: VarLen> Initializer<T> for BI<T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        self.0.lay()
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        self.0.ini(dst, layout)
    }
}
fn bi<T: VarLen>(i: impl Initializer<T> + 'static) -> BI<T> {
    user(|| BI(Box::new(i)))
}
const T08: [&str; 1] = ["C08"];
const T0801: [&str; 5] = ["C08", "C01", "C05", "C18", "C23"];
const MOST: usize = 4096;
/// No heap operation since the last mark, except for the small ones of panicking itself.
fn quiet() -> bool {
    galloc::events().0.iter().all(|e| e.size <= 600 && e.old_size == 0)
}

/// Fills with values derived from the index; must never run for a length that cannot exist.
fn fill<E: Elem>(n: usize) -> FillSequentially<Box<dyn FnMut(usize) -> E>> {
    FillSequentially(user(|| {
        Box::new(move |i: usize| {
            if n > MOST {
                fail(&T0801, format!("an array of impossible length {:#x} is being filled", n));
                ctx::give_up();
            }
            E::mk(i as u64 * 37 + n as u64)
        }) as Box<dyn FnMut(usize) -> E>
    }))
}
fn arr<E: Elem, L: LenT>(n: usize) -> SizedInit<FillSequentially<Box<dyn FnMut(usize) -> E>>, L> {
    SizedInit(L::of(n), fill::<E>(n))
}
#[derive(Clone, Copy)]
enum Part {
    Align(usize),
    /// A fixed part: alignment, size.
    Fix(usize, usize),
    /// An array: alignment, element size, largest length.
    Arr(usize, usize, u128),
}
fn exact(parts: &[Part], lens: &[usize]) -> u128 {
    let upx = |x: u128, a: usize| (x + a as u128 - 1) / a as u128 * a as u128;
    let mut at = 0u128;
    let mut k = 0;
    for p in parts {
        match *p {
            Part::Align(a) => at = upx(at, a),
            Part::Fix(a, s) => at = upx(at, a) + s as u128,
            Part::Arr(a, s, _) => {
                at = upx(at, a) + s as u128 * lens[k] as u128;
                k += 1;
            }
        }
    }
    at
}
trait SqD {
    fn push(&mut self, lens: &[usize]) -> Result<(), Caught>;
    fn extend(&mut self, all: &[&[usize]]) -> Result<(), Caught>;
    fn state(&self) -> (usize, usize, usize, u64);
}
trait ShD {
    fn name(&self) -> &'static str;
    fn parts(&self) -> &[Part];
    fn align(&self) -> usize;
    fn predict(&self, lens: &[usize]) -> Option<usize>;
    fn boxed(&self, lens: &[usize]) -> Result<usize, Caught>;
    fn arena(&self, lens: &[usize], b: &Bump) -> Result<usize, Caught>;
    fn seq(&self, idx: bool) -> Box<dyn SqD>;
    fn collect(&self, all: &[&[usize]], idx: bool) -> Result<usize, Caught>;
}
struct Sh<T: VarLen> {
    name: &'static str,
    parts: Vec<Part>,
    mk: fn(&[usize]) -> BI<T>,
    peek: fn(&T) -> u64,
}
struct Sq<T: VarLen, I: Indexing> {
    s: Seq<T, I>,
    mk: fn(&[usize]) -> BI<T>,
    peek: fn(&T) -> u64,
}
impl<T: VarLen, I: Indexing> SqD for Sq<T, I> {
    fn push(&mut self, lens: &[usize]) -> Result<(), Caught> {
        let i = (self.mk)(lens);
        ctx::catch(|| lib(|| self.s.push(i)))
    }
    fn extend(&mut self, all: &[&[usize]]) -> Result<(), Caught> {
        let mk = self.mk;
        let v: Vec<BI<T>> = all.iter().map(|l| mk(l)).collect();
        ctx::catch(|| lib(|| self.s.extend(v)))
    }
    fn state(&self) -> (usize, usize, usize, u64) {
        let mut h = 0;
        for x in self.s.iter() {
            h = mix(h, (self.peek)(x));
        }
        (self.s.len(), self.s.offset(), self.s.capacity_in_offsets(), h)
    }
}
impl<T: VarLen + 'static> ShD for Sh<T> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn parts(&self) -> &[Part] {
        &self.parts
    }
    fn align(&self) -> usize {
        T::ALIGN
    }
    fn predict(&self, lens: &[usize]) -> Option<usize> {
        let i = (self.mk)(lens);
        lib(|| i.calculate_layout_cautious()).map(|l| l.size())
    }
    fn boxed(&self, lens: &[usize]) -> Result<usize, Caught> {
        let i = (self.mk)(lens);
        ctx::catch(|| {
            let b = lib(|| VBox::new(i));
            let n = b.calculate_layout().size();
            lib(|| drop(b));
            n
        })
    }
    fn arena(&self, lens: &[usize], b: &Bump) -> Result<usize, Caught> {
        let i = (self.mk)(lens);
        ctx::catch(|| {
            let b = lib(|| Owned::new_in(i, b));
            b.calculate_layout().size()
        })
    }
    fn seq(&self, idx: bool) -> Box<dyn SqD> {
        if idx {
            Box::new(Sq::<T, varlen::seq::CheckedIndexing> { s: Seq::new(), mk: self.mk, peek: self.peek })
        } else {
            Box::new(Sq::<T, varlen::seq::UncheckedIndexing> { s: Seq::new(), mk: self.mk, peek: self.peek })
        }
    }
    fn collect(&self, all: &[&[usize]], idx: bool) -> Result<usize, Caught> {
        let v: Vec<BI<T>> = all.iter().map(|l| (self.mk)(l)).collect();
        ctx::catch(|| {
            lib(|| {
                if idx {
                    v.into_iter().collect::<Seq<T, varlen::seq::CheckedIndexing>>().len()
                } else {
                    v.into_iter().collect::<Seq<T, varlen::seq::UncheckedIndexing>>().len()
                }
            })
        })
    }
}
/// Alignments of words, of `u64`, and of both together.
const AW: usize = align_of::<usize>();
const AL: usize = align_of::<u64>();
const AD: usize = if AW > AL { AW } else { AL };
fn part_arr<E, L: LenT>() -> Vec<Part> {
    let a = align_of::<E>().max(align_of::<L>());
    vec![Part::Align(a), Part::Fix(align_of::<L>(), size_of::<L>()), Part::Arr(align_of::<E>(), size_of::<E>(), L::MAXLEN as u128)]
}
fn part_fix<E>() -> Vec<Part> {
    vec![Part::Fix(align_of::<E>(), size_of::<E>())]
}
fn cat(a: usize, v: &[Vec<Part>]) -> Vec<Part> {
    let mut r = vec![Part::Align(a)];
    for x in v {
        r.extend_from_slice(x)
    }
    r
}
fn sum<E: Elem>(s: &[E]) -> u64 {
    s.iter().fold(s.len() as u64, |h, x| mix(h, x.get()))
}

/// Two lengths, a nested array.
#[define_varlen]
pub struct SzTwo {
    #[controls_layout]
    a: usize,
    #[controls_layout]
    b: usize,
    #[varlen_array]
    x: [u64; *a],
    #[varlen_array]
    y: [u8; *b],
    #[varlen]
    z: Array<u16>,
}
/// Large alignment after a byte array; a wide element.
#[define_varlen]
pub struct SzThree {
    tag: u8,
    #[controls_layout]
    n: u64,
    #[varlen]
    s: Array<u8>,
    #[varlen_array]
    w: [A64; *n as usize],
    #[varlen]
    t: FixedLen<A4096>,
}
/// Nothing aligned: every size up to the address space's is a multiple of the alignment.
#[define_varlen]
pub struct SzByte {
    #[controls_layout]
    n: [u8; size_of::<usize>()],
    #[varlen_array]
    x: [u8; usize::from_ne_bytes(*n)],
}
/// Likewise, with two lengths and a tail.
#[define_varlen]
pub struct SzBytes {
    #[controls_layout]
    n: [u8; size_of::<usize>()],
    #[controls_layout]
    m: [u8; size_of::<usize>()],
    t: u8,
    #[varlen_array]
    x: [u8; usize::from_ne_bytes(*n)],
    #[varlen]
    f: FixedLen<u8>,
    #[varlen_array]
    y: [[u8; 3]; usize::from_ne_bytes(*m)],
}
/// The same length twice.
#[define_varlen]
pub struct SzFour {
    #[controls_layout]
    n: usize,
    #[varlen_array]
    p: [[u8; 3]; *n],
    #[varlen_array]
    q: [u32; *n],
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct SzNt(Tup2<Array<u8>, Array<u64>>);
    with init: pub struct SzNtInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn _inner_mut(self: _) -> _;
}
type F<E> = FixedLen<E>;

macro_rules! shape_arr {
    ($v:ident, $e:ty, $l:ty) => {
        $v.push(Box::new(Sh::<Array<$e, $l>> {
            name: concat!("Array<", stringify!($e), ",", stringify!($l), ">"),
            parts: part_arr::<$e, $l>(),
            mk: |n| bi(arr::<$e, $l>(n[0])),
            peek: |t| sum(&t[..]),
        }));
    };
}
fn shapes() -> Vec<Box<dyn ShD>> {
    let mut v: Vec<Box<dyn ShD>> = Vec::new();
    shape_arr!(v, u8, usize);
    shape_arr!(v, u64, usize);
    shape_arr!(v, [u8; 3], usize);
    shape_arr!(v, [u32; 5], u64);
    shape_arr!(v, A16, usize);
    shape_arr!(v, A4096, usize);
    shape_arr!(v, u16, u64);
    shape_arr!(v, A4096, u32);
    shape_arr!(v, u128, usize);
    v.push(Box::new(Sh::<Tup2<Array<u8>, Array<u8>>> {
        name: "Tup2<Array<u8>,Array<u8>>",
        parts: cat(AW, &[part_arr::<u8, usize>(), part_arr::<u8, usize>()]),
        mk: |n| bi(tup2::Init(arr::<u8, usize>(n[0]), arr::<u8, usize>(n[1]))),
        peek: |t| mix(sum(&t.refs().0[..]), sum(&t.refs().1[..])),
    }));
    v.push(Box::new(Sh::<Tup2<Array<[u8; 3], u64>, Array<u64>>> {
        name: "Tup2<Array<[u8;3],u64>,Array<u64>>",
        parts: cat(AD, &[part_arr::<[u8; 3], u64>(), part_arr::<u64, usize>()]),
        mk: |n| bi(tup2::Init(arr::<[u8; 3], u64>(n[0]), arr::<u64, usize>(n[1]))),
        peek: |t| mix(sum(&t.refs().0[..]), sum(&t.refs().1[..])),
    }));
    v.push(Box::new(Sh::<Tup3<F<A64>, Array<u8>, Array<u32>>> {
        name: "Tup3<F<A64>,Array<u8>,Array<u32>>",
        parts: cat(64, &[part_fix::<A64>(), part_arr::<u8, usize>(), part_arr::<u32, usize>()]),
        mk: |n| bi(tup3::Init(FixedLen(A64::mk(9)), arr::<u8, usize>(n[0]), arr::<u32, usize>(n[1]))),
        peek: |t| mix(sum(&t.refs().1[..]), sum(&t.refs().2[..])),
    }));
    v.push(Box::new(Sh::<Tup2<Array<u8>, Tup2<F<u64>, Array<u16>>>> {
        name: "Tup2<Array<u8>,Tup2<F<u64>,Array<u16>>>",
        parts: cat(AD, &[part_arr::<u8, usize>(), vec![Part::Align(AL)], part_fix::<u64>(), part_arr::<u16, usize>()]),
        mk: |n| bi(tup2::Init(arr::<u8, usize>(n[0]), tup2::Init(FixedLen(5u64), arr::<u16, usize>(n[1])))),
        peek: |t| mix(sum(&t.refs().0[..]), sum(&t.refs().1.refs().1[..])),
    }));
    v.push(Box::new(Sh::<Tup2<Array<u8>, F<A4096>>> {
        name: "Tup2<Array<u8>,F<A4096>>",
        parts: cat(4096, &[part_arr::<u8, usize>(), part_fix::<A4096>()]),
        mk: |n| bi(tup2::Init(arr::<u8, usize>(n[0]), FixedLen(A4096::mk(3)))),
        peek: |t| sum(&t.refs().0[..]),
    }));
    v.push(Box::new(Sh::<Tup4<F<u8>, Array<u16>, Array<u8, u64>, Array<u64>>> {
        name: "Tup4<F<u8>,Array<u16>,Array<u8,u64>,Array<u64>>",
        parts: cat(AD, &[part_fix::<u8>(), part_arr::<u16, usize>(), part_arr::<u8, u64>(), part_arr::<u64, usize>()]),
        mk: |n| bi(tup4::Init(FixedLen(1u8), arr::<u16, usize>(n[0]), arr::<u8, u64>(n[1]), arr::<u64, usize>(n[2]))),
        peek: |t| mix(sum(&t.refs().1[..]), mix(sum(&t.refs().2[..]), sum(&t.refs().3[..]))),
    }));
    v.push(Box::new(Sh::<SzNt> {
        name: "newtype(Tup2<Array<u8>,Array<u64>>)",
        parts: cat(AD, &[part_arr::<u8, usize>(), part_arr::<u64, usize>()]),
        mk: |n| bi(SzNtInit(tup2::Init(arr::<u8, usize>(n[0]), arr::<u64, usize>(n[1])))),
        peek: |t| mix(sum(&t.inner().refs().0[..]), sum(&t.inner().refs().1[..])),
    }));
    let words = usize::MAX as u128;
    v.push(Box::new(Sh::<SzTwo> {
        name: "struct SzTwo",
        parts: cat(AD, &[vec![Part::Fix(AW, 2 * size_of::<usize>()), Part::Arr(AL, 8, words), Part::Arr(1, 1, words)], part_arr::<u16, usize>()]),
        mk: |n| bi(sz_two::Init { a: n[0], b: n[1], x: fill::<u64>(n[0]), y: fill::<u8>(n[1]), z: arr::<u16, usize>(n[2]) }),
        peek: |t| {
            let r = t.refs();
            mix(sum(r.x), mix(sum(r.y), sum(&r.z[..])))
        },
    }));
    v.push(Box::new(Sh::<SzByte> {
        name: "struct SzByte",
        parts: cat(1, &[vec![Part::Fix(1, size_of::<usize>()), Part::Arr(1, 1, words)]]),
        mk: |n| bi(sz_byte::Init { n: n[0].to_ne_bytes(), x: fill::<u8>(n[0]) }),
        peek: |t| sum(t.refs().x),
    }));
    v.push(Box::new(Sh::<SzBytes> {
        name: "struct SzBytes",
        parts: cat(1, &[vec![Part::Fix(1, 2 * size_of::<usize>() + 1), Part::Arr(1, 1, words), Part::Fix(1, 1), Part::Arr(1, 3, words)]]),
        mk: |n| bi(sz_bytes::Init { n: n[0].to_ne_bytes(), m: n[1].to_ne_bytes(), t: 5, x: fill::<u8>(n[0]), f: FixedLen(7u8), y: fill::<[u8; 3]>(n[1]) }),
        peek: |t| {
            let r = t.refs();
            mix(sum(r.x), mix(sum(r.y), *r.t as u64))
        },
    }));
    v.push(Box::new(Sh::<SzThree> {
        name: "struct SzThree",
        parts: cat(4096, &[vec![Part::Fix(AL, size_of::<(u8, u64)>())], part_arr::<u8, usize>(), vec![Part::Arr(64, 64, words)], part_fix::<A4096>()]),
        mk: |n| bi(sz_three::Init { tag: 1, n: n[1] as u64, s: arr::<u8, usize>(n[0]), w: fill::<A64>(n[1]), t: FixedLen(A4096::mk(1)) }),
        peek: |t| {
            let r = t.refs();
            mix(sum(&r.s[..]), sum(r.w))
        },
    }));
    v
}
/// One length used twice: decided separately, as its parts are not independent.
fn sz4_exact(n: usize) -> u128 {
    let p = size_of::<usize>() as u128 + 3 * n as u128;
    (p + 3) / 4 * 4 + 4 * n as u128
}

const BITS: usize = usize::BITS as usize;
const TOP: u128 = 1 << BITS;
/// More than can be had.
const GIANT: u128 = if BITS >= 64 { 1 << 35 } else { isize::MAX as u128 };
fn pick_target(r: &mut Rng) -> u128 {
    let small = match r.below(4) {
        0 => r.below(4),
        1 => r.below(64),
        2 => r.below(600),
        _ => r.below(9000),
    } as u128;
    let neg = r.chance(1, 2);
    let base = match r.below(12) {
        0..=2 => TOP / 2,
        3..=6 => TOP,
        7 => 2 * TOP,
        8 => 3 * TOP,
        9 => TOP * (1 + r.below(9) as u128),
        10 => TOP + TOP / 2,
        _ => 1u128 << r.range(BITS - 24, BITS - 2),
    };
    if neg {
        base.saturating_sub(small)
    } else {
        base + small
    }
}
/// Chooses lengths so that the exact size comes close to an interesting number.
fn pick_lens(parts: &[Part], r: &mut Rng) -> Vec<usize> {
    let arrs: Vec<(usize, u128)> = parts
        .iter()
        .filter_map(|p| match *p {
            Part::Arr(_, s, m) => Some((s, m)),
            _ => None,
        })
        .collect();
    let mut lens: Vec<usize> = arrs.iter().map(|_| r.below(40)).collect();
    if r.chance(1, 10) {
        return lens;
    }
    let j = r.below(arrs.len());
    if arrs.len() > 1 && r.chance(1, 2) {
        // A second big one.
        let mut k = r.below(arrs.len() - 1);
        if k >= j {
            k += 1
        }
        let n: u128 = match r.below(4) {
            0 => 1 << r.range(BITS - 24, BITS - 1),
            1 => (TOP / arrs[k].0.max(1) as u128).saturating_sub(r.below(70) as u128),
            2 => ((TOP / 2) / arrs[k].0.max(1) as u128).saturating_sub(r.below(70) as u128),
            _ => r.u64() as u128,
        };
        lens[k] = n.min(arrs[k].1) as usize;
    }
    let t = pick_target(r);
    lens[j] = 0;
    let base = exact(parts, &lens);
    let mut t = t;
    while t < base {
        t += TOP;
    }
    let s = arrs[j].0.max(1) as u128;
    let n = (t - base) / s + r.below(3) as u128;
    let n = n.saturating_sub(r.below(3) as u128);
    lens[j] = if n > arrs[j].1 { (arrs[j].1 - (r.below(3) as u128)) as usize } else { n as usize };
    lens
}
fn small_lens(parts: &[Part], r: &mut Rng) -> Vec<usize> {
    parts.iter().filter(|p| matches!(p, Part::Arr(..))).map(|_| r.below(12)).collect()
}
const SAFE: u128 = isize::MAX as u128 - 16384;

fn judge_prediction(name: &str, lens: &[usize], ex: u128, got: Option<usize>) {
    match got {
        Some(n) => vassert!(T0801, n as u128 == ex, "{} of lengths {:x?}: predicted size {:#x} instead of {:#x}", name, lens, n, ex),
        None => vassert!(T08, ex > SAFE, "{} of lengths {:x?} and size {:#x} is refused", name, lens, ex),
    }
}
pub fn d_sizes(_env: &Env, name: &str, no: u64) {
    thread_local! { static SH: Vec<Box<dyn ShD>> = shapes(); }
    SH.with(|sh| {
        let n = sh.len() as u64 + 1 + (BITS < 64) as u64;
        let k = (no % n) as usize;
        if k == sh.len() + 1 {
            return wide_lengths(name, no);
        }
        if k == sh.len() {
            return sz4(name, no);
        }
        let sh = &sh[k];
        ctx::case(name, no, sh.name(), |r| sizes_case(&**sh, r));
    })
}
fn sizes_case(sh: &dyn ShD, r: &mut Rng) {
    for _ in 0..8 {
        let lens = pick_lens(sh.parts(), r);
        let ex = exact(sh.parts(), &lens);
        ctx::trace(|| format!("lengths {:x?} exact {:#x}", lens, ex));
        let got = match ctx::catch(|| sh.predict(&lens)) {
            Ok(g) => g,
            Err(e) => {
                fail(&T08, format!("{} of lengths {:x?}: predicting the size panics: {:?}", sh.name(), lens, e));
                return;
            }
        };
        judge_prediction(sh.name(), &lens, ex, got);
        ctx::count(if ex > isize::MAX as u128 { "sizes.too_large" } else if ex > SAFE { "sizes.at_the_limit" } else { "sizes.fit" });
        if ctx::poisoned() {
            return;
        }
        if ex > isize::MAX as u128 {
            // Every container refuses, before anything is allocated or written.
            galloc::mark();
            let b = sh.boxed(&lens);
            vassert!(T0801, matches!(b, Err(Caught::Panic(_))), "{} of lengths {:x?} (size {:#x}) was built in a box: {:?}", sh.name(), lens, ex, b);
            vassert!(T08, quiet(), "{}: refusing a box of lengths {:x?} used the heap", sh.name(), lens);
            let bump = Bump::new();
            let b = sh.arena(&lens, &bump);
            vassert!(T0801, matches!(b, Err(Caught::Panic(_))), "{} of lengths {:x?} (size {:#x}) was built in an arena: {:?}", sh.name(), lens, ex, b);
            ctx::count("sizes.refused");
            ctx::poll();
        }
        let mut q = sh.seq(r.chance(1, 2));
        let pre = r.below(4);
        for _ in 0..pre {
            let l = small_lens(sh.parts(), r);
            let ok = q.push(&l);
            vassert!(T08, ok.is_ok(), "{}: an element of lengths {:?} was refused: {:?}", sh.name(), l, ok);
        }
        if ctx::poisoned() {
            return;
        }
        let s0 = q.state();
        let occupied = s0.1 as u128 * sh.align() as u128;
        let total = occupied + ex;
        if !galloc::ON && total > GIANT && total <= isize::MAX as u128 {
            // Without the monitoring allocator this might be granted.
        } else if total > GIANT {
            // Cannot be had (no such memory, or no such size).
            galloc::mark();
            let a0 = galloc::totals().attempts;
            let l = small_lens(sh.parts(), r);
            let p = match r.below(3) {
                0 => q.extend(&[&lens]),
                1 => q.extend(&[&lens, &l]),
                _ => q.push(&lens),
            };
            vassert!(T0801, matches!(p, Err(Caught::Panic(_))), "{} of lengths {:x?} (size {:#x}) was pushed: {:?}", sh.name(), lens, ex, p);
            if ctx::poisoned() {
                return;
            }
            let s1 = q.state();
            vassert!(["C08", "C09", "C10"], s0 == s1, "{}: refusing to push lengths {:x?} changed the sequence from {:x?} to {:x?}", sh.name(), lens, s0, s1);
            if galloc::ON {
                vassert!(T08, quiet(), "{}: refusing to push lengths {:x?} changed the heap", sh.name(), lens);
                let tried = galloc::totals().attempts != a0;
                vassert!(T08, tried || total > isize::MAX as u128 / 4, "{}: pushing {:#x} bytes was refused without asking the allocator", sh.name(), ex);
            }
            ctx::count("sizes.push_refused");
            if ex > GIANT && r.chance(1, 4) {
                let p = match r.below(3) {
                    0 => sh.collect(&[&lens], r.chance(1, 2)),
                    1 => sh.collect(&[&l, &lens], r.chance(1, 2)),
                    _ => sh.collect(&[&lens, &l], r.chance(1, 2)),
                };
                vassert!(T0801, p.is_err(), "{} of lengths {:x?} (size {:#x}) was collected: {:?}", sh.name(), lens, ex, p);
                ctx::count("sizes.collect_refused");
            }
            // It still works.
            let l = small_lens(sh.parts(), r);
            let ok = q.push(&l);
            vassert!(T08, ok.is_ok(), "{}: after a refusal, an element of lengths {:?} was refused: {:?}", sh.name(), l, ok);
        } else if lens.iter().all(|n| *n <= MOST) {
            let b = sh.boxed(&lens);
            vassert!(T08, matches!(b, Ok(n) if n as u128 == ex), "{} of lengths {:?}: built as {:?} instead of {} bytes", sh.name(), lens, b, ex);
        }
        lib(|| drop(q));
        ctx::poll();
        if ctx::poisoned() {
            return;
        }
        ctx::distinct(lens.iter().fold(sh.name().len() as u64, |h, n| mix(h, *n as u64)));
        ctx::sample(|| format!("{} of lengths {:x?}: exact size {:#x}, predicted {:x?}", sh.name(), lens, ex, got));
    }
}
/// Lengths of a type that is wider than the address space.
fn wide_lengths(name: &str, no: u64) {
    fn one<E: Elem>(n: u64, r: &mut Rng) {
        let mk = || SizedInit(n, fill::<E>(n as usize));
        let i = mk();
        let ex = n as u128 * size_of::<E>() as u128 + up(8, align_of::<E>()) as u128;
        let got = lib(|| Initializer::<Array<E, u64>>::calculate_layout_cautious(&i)).map(|l| l.size());
        let fits = n <= usize::MAX as u64 && ex <= isize::MAX as u128;
        vassert!(T08, fits || got.is_none(), "Array<{}, u64> of length {:#x}: predicted size {:x?}", E::NAME, n, got);
        vassert!(T08, !fits || ex > SAFE || got == Some(ex as usize), "Array<{}, u64> of length {:#x}: predicted size {:x?} instead of {:#x}", E::NAME, n, got, ex);
        if !fits {
            let b = if r.chance(1, 2) {
                ctx::catch(|| drop(lib(|| VBox::<Array<E, u64>>::new(mk()))))
            } else {
                let mut s: Seq<Array<E, u64>> = Seq::new();
                ctx::catch(|| drop(lib(|| s.push(mk()))))
            };
            vassert!(T08, matches!(b, Err(Caught::Panic(_))), "Array<{}, u64> of length {:#x} was built: {:?}", E::NAME, n, b);
            ctx::count("sizes.refused");
        }
        ctx::distinct(mix(n, size_of::<E>() as u64));
    }
    ctx::case(name, no, "wide lengths", |r| {
        for _ in 0..4 {
            let n = match r.below(4) {
                0 => (r.range(1, 5) as u64) << r.range(32, 60),
                1 => u64::MAX - r.below(3) as u64,
                2 => u32::MAX as u64 + r.below(40) as u64,
                _ => (r.u64() << 32) | r.below(30) as u64,
            };
            match r.below(4) {
                0 => one::<u8>(n, r),
                1 => one::<u64>(n, r),
                2 => one::<()>(n, r),
                _ => one::<Tok>(n, r),
            }
        }
    })
}
fn sz4(name: &str, no: u64) {
    ctx::case(name, no, "struct SzFour", |r| {
        for _ in 0..16 {
            let t = pick_target(r);
            let n = ((t / 7).min(usize::MAX as u128) as usize).saturating_sub(r.below(4)).saturating_add(r.below(3));
            let n = if r.chance(1, 4) { huge_len(3, &mut Gen::new(r.fork())).unwrap_or(n) } else { n };
            let ex = sz4_exact(n);
            let mk = || sz_four::Init { n, p: fill::<[u8; 3]>(n), q: fill::<u32>(n) };
            let i = mk();
            let got = lib(|| Initializer::<SzFour>::calculate_layout_cautious(&i)).map(|l| l.size());
            judge_prediction("struct SzFour", &[n], ex, got);
            if ctx::poisoned() {
                return;
            }
            if ex > isize::MAX as u128 {
                let b = ctx::catch(|| drop(lib(|| VBox::<SzFour>::new(mk()))));
                vassert!(T0801, matches!(b, Err(Caught::Panic(_))), "struct SzFour of length {:#x} (size {:#x}) was built: {:?}", n, ex, b);
                ctx::count("sizes.refused");
            }
            ctx::distinct(mix(77, n as u64));
        }
    })
}

// ---------------------------------------------------------------- lengths around the length types' limits

fn wide_list() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=300).collect();
    v.extend(510..515);
    v.extend(65530..65545);
    v.extend(131070..131075);
    if let (Some(a), Some(b)) = (1usize.checked_shl(32), 1usize.checked_shl(33)) {
        v.extend(a - 4..a + 6);
        v.extend(b - 2..b + 3);
    }
    v
}
fn lens_of<E: Elem, L: LenT>(src: &[E]) {
    let n = src.len();
    let nm = || format!("Array<{},{}> of length {:#x}", E::NAME, L::LNAME, n);
    let fits = n <= L::MAXLEN;
    let f = L::from_usize(n);
    vassert!(T08, f.is_some() == fits, "{}::from_usize({:#x}) is {:?}", L::LNAME, n, f);
    if let Some(l) = f {
        vassert!(T08, l.as_usize() == n, "{}: {:#x} becomes {:#x}", L::LNAME, n, l.as_usize());
    }
    let want = up(size_of::<L>(), align_of::<E>()) + n * size_of::<E>();
    let mut judge = |what: &str, r: Option<Option<usize>>| match r {
        None => {
            ctx::count("lens.refused");
            vassert!(T08, !fits, "{}: {} refuses a length that fits", nm(), what);
        }
        Some(s) => {
            ctx::count("lens.accepted");
            vassert!(T08, fits, "{}: {} accepts a length that does not fit", nm(), what);
            vassert!(T08, s == Some(want), "{}: {} predicts {:x?} bytes instead of {:#x}", nm(), what, s, want);
        }
    };
    let size = |d: crate::spec::Dyn<'_, Array<E, L>>| d.calculate_layout_cautious().map(|l| l.size());
    if let Some(r) = E::try_copy::<L>(src) {
        judge("try_copy", r.map(size));
    }
    if let Some(r) = E::try_clone_from::<L>(src) {
        judge("try_clone_from_slice", r.map(size));
    }
    if fits && (n <= 70000 || size_of::<E>() == 0) {
        if let Some(Some(i)) = E::try_copy::<L>(src) {
            let b = lib(|| VBox::new(i));
            vassert!(T08, b.len() == n && b.len_short().as_usize() == n, "{}: built with length {:#x}", nm(), b.len());
            if size_of::<E>() > 0 {
                vassert!(["C08", "C02"], b.iter().zip(src).all(|(x, y)| x.get() == y.get()), "{}: contents differ", nm());
            }
            ctx::count("lens.built");
        }
        if n <= 70000 {
            let b = lib(|| VBox::<Array<E, L>>::new(SizedInit(L::of(n), FillSequentially(|i| E::mk(i as u64)))));
            vassert!(T08, b.len() == n, "{}: built with length {:#x}", nm(), b.len());
            vassert!(["C08", "C02"], b.iter().enumerate().all(|(i, x)| x.get() == E::norm(i as u64)), "{}: contents differ", nm());
        }
    }
}
#[cfg(not(miri))]
pub fn d_lens(_env: &Env, name: &str, no: u64) {
    thread_local! {
        static LIST: Vec<usize> = wide_list();
        static Z: Option<crate::sys::Zeros> = crate::sys::Zeros::new(if BITS >= 64 { (1usize << (BITS - 31)) + 64 } else { 140_000 });
    }
    let n = LIST.with(|l| l[(no as usize) % l.len()]);
    ctx::case(name, no, &format!("{:#x}", n), |r| {
        let units: &[()] = unsafe { std::slice::from_raw_parts(NonNull::dangling().as_ptr(), n) };
        lens_of::<(), u8>(units);
        lens_of::<(), u16>(units);
        lens_of::<(), u32>(units);
        lens_of::<(), u64>(units);
        lens_of::<(), usize>(units);
        let any = match r.below(4) {
            0 => usize::MAX - r.below(300),
            1 => (1 << r.range(8, 63)) + r.below(3) - 1,
            2 => (r.range(1, 1 << 20) << *r.pick(&[8, 16, 32])) + r.below(256),
            _ => r.u64() as usize,
        };
        let units: &[()] = unsafe { std::slice::from_raw_parts(NonNull::dangling().as_ptr(), any) };
        if any > 1 << 24 {
            // Only types that copy in no time.
            lens_copy::<u8>(units);
            lens_copy::<u16>(units);
            lens_copy::<u32>(units);
            lens_copy::<u64>(units);
            lens_copy::<usize>(units);
        }
        Z.with(|z| {
            if let Some(z) = z {
                let bytes = &z.bytes()[..n];
                lens_of::<u8, u8>(bytes);
                lens_of::<u8, u16>(bytes);
                lens_of::<u8, u32>(bytes);
                lens_of::<u8, usize>(bytes);
                let shorts: &[u16] = unsafe { std::slice::from_raw_parts(z.bytes().as_ptr() as *const u16, n / 2) };
                lens_of::<u16, u8>(shorts);
                lens_of::<u16, u16>(shorts);
                let text: &str = unsafe { std::str::from_utf8_unchecked(bytes) };
                text_len::<u8>(text);
                text_len::<u16>(text);
                text_len::<u32>(text);
                text_len::<u64>(text);
                text_len::<usize>(text);
            }
        });
        ctx::poll();
        ctx::distinct(mix(n as u64, any as u64));
        ctx::sample(|| format!("lengths {:#x} and {:#x} for every length type", n, any));
    })
}
/// A long array of zero-sized elements.
fn lens_copy<L: LenT>(src: &[()]) {
    let n = src.len();
    let fits = n <= L::MAXLEN;
    let i = Array::<(), L>::try_copy(src);
    vassert!(T08, i.is_some() == fits, "Array<(),{}> of length {:#x}: try_copy says {}", L::LNAME, n, i.is_some());
    if let Some(i) = i {
        let b = lib(|| VBox::new(i));
        vassert!(T08, b.len() == n && b.len_short().as_usize() == n, "Array<(),{}> of length {:#x} has length {:#x}", L::LNAME, n, b.len());
        ctx::count("lens.built");
    }
}
#[cfg(not(miri))]
fn text_len<L: LenT>(t: &str) {
    let n = t.len();
    let fits = n <= L::MAXLEN;
    match Str::<L>::try_copy(t) {
        None => {
            vassert!(["C08", "C19"], !fits, "Str<{}> refuses {:#x} bytes", L::LNAME, n);
            ctx::count("lens.refused");
        }
        Some(i) => {
            vassert!(["C08", "C19"], fits, "Str<{}> accepts {:#x} bytes", L::LNAME, n);
            let s = i.calculate_layout_cautious().map(|l| l.size());
            vassert!(["C08", "C19", "C06"], s == Some(size_of::<L>() + n), "Str<{}> of {:#x} bytes: predicted size {:x?}", L::LNAME, n, s);
            ctx::count("lens.accepted");
            if n <= 70000 {
                let b = lib(|| VBox::new(i));
                vassert!(["C08", "C19", "C02"], &b[..] == t, "Str<{}> of {:#x} bytes: other contents", L::LNAME, n);
            }
        }
    }
}

// ---------------------------------------------------------------- texts around limits

fn texts_for<L: LenT>(limit: usize, r: &mut Rng) {
    let t19 = ["C19", "C02"];
    let mut g = Gen::new(r.fork());
    let n = match r.below(5) {
        0 => r.range(0, 40),
        1 => limit,
        2 => limit + r.range(1, 8),
        3 => limit.saturating_sub(r.range(0, 8)),
        _ => limit.saturating_sub(4) + r.range(0, 8),
    };
    let mut text = if n >= 8 && r.chance(2, 3) {
        // A wide character ends at, before or after the limit.
        let tail: String = {
            let mut s = String::new();
            for _ in 0..r.range(1, 3) {
                s.push(*r.pick(&['é', 'ß', '→', '中', '😀', '𝕏', '\u{7f}', 'z', '\u{10ffff}', '\u{d7ff}', '\u{e000}']));
            }
            s
        };
        let head = n.saturating_sub(tail.len());
        let mut s = g.text_of(head);
        s.push_str(&tail);
        s
    } else {
        g.text_of(n)
    };
    let fits = text.len() <= L::MAXLEN;
    let made = Str::<L>::try_copy(&text).is_some();
    vassert!(["C19", "C08"], made == fits, "Str<{}>: a text of {} bytes is {}", L::LNAME, text.len(), if made { "accepted" } else { "refused" });
    ctx::count(if made { "texts.accepted" } else { "texts.refused" });
    ctx::distinct(mix(limit as u64, text.bytes().fold(text.len() as u64, |h, b| mix(h, b as u64))));
    if !made || !fits {
        return;
    }
    let eq = |what: &str, a: &str, b: &str| {
        vassert!(t19, std::str::from_utf8(a.as_bytes()).is_ok(), "Str<{}>: {}: not UTF-8", L::LNAME, what);
        vassert!(t19, a == b, "Str<{}>: {}: a text of {} bytes reads {:?} instead of {:?}", L::LNAME, what, b.len(), a.chars().take(60).collect::<String>(), b.chars().take(60).collect::<String>());
    };
    let mut b = lib(|| VBox::new(Str::<L>::try_copy(&text).unwrap()));
    eq("a new box", &b, &text);
    let c = lib(|| b.clone());
    eq("a clone", &c, &text);
    let v = lib(|| VBox::new(b.vcopy()));
    eq("a copy", &v, &text);
    // In a growing sequence.
    let mut q: Seq<Str<L>> = Seq::new();
    let mut want = Vec::new();
    for i in 0..r.range(1, 6) {
        let t = if i == 0 { text.clone() } else { g.text_of(n.min(L::MAXLEN) / (i + 1)) };
        lib(|| q.push(Str::<L>::try_copy(&t).unwrap()));
        want.push(t);
        for (s, t) in q.iter().zip(&want) {
            eq("in a sequence", s, t);
        }
    }
    // Mutation that keeps the text valid.
    let m = b.as_mut().mut_slice();
    vassert!(t19, m.len() == text.len(), "Str<{}>: mutable text has {} bytes instead of {}", L::LNAME, m.len(), text.len());
    m.make_ascii_uppercase();
    text.make_ascii_uppercase();
    eq("after uppercasing", &b, &text);
    for s in q.iter_mut() {
        s.mut_slice().make_ascii_lowercase();
    }
    for (s, t) in q.iter().zip(&mut want) {
        t.make_ascii_lowercase();
        eq("in a sequence after lowercasing", s, t);
    }
    eq("a clone after mutation of the original", &c, &v[..]);
    let mut taken = Vec::new();
    for o in q.take_elems() {
        taken.push(lib(|| VBox::new(o)));
    }
    for (s, t) in taken.iter().zip(&want) {
        eq("taken out", s, t);
    }
    lib(|| {
        drop((b, c, v, q));
        taken.clear()
    });
    ctx::poll();
}
/// Every way to keep an arbitrary text.
pub fn d_texts(env: &Env, name: &str, no: u64) {
    ctx::case(name, no, ["u8", "u16", "u32", "u64", "usize"][(no % 5) as usize], |r| {
        for _ in 0..if env.miri { 1 } else { 4 } {
            match no % 5 {
                0 => texts_for::<u8>(255, r),
                1 => texts_for::<u16>(if env.miri || r.chance(3, 4) { 300 } else { 65535 }, r),
                2 => texts_for::<u32>(40 + r.below(300), r),
                3 => texts_for::<u64>(10 + r.below(60), r),
                _ => {
                    let s = Gen::new(r.fork()).text_of(20);
                    let b = lib(|| VBox::new(Str::copy(&s)));
                    vassert!(["C19", "C02"], b[..] == s[..], "Str::copy of {:?} reads {:?}", s, &b[..]);
                    texts_for::<usize>(4 + r.below(300), r)
                }
            }
        }
        if no % 5 == 0 {
            // Every kind of character at every place.
            let i = r.range(0, 254);
            let c = *r.pick(&['a', 'é', '→', '😀']);
            let mut s = "x".repeat(i);
            s.push(c);
            let fits = s.len() <= 255;
            let got = Str::<u8>::try_copy(&s).map(|t| lib(|| VBox::new(t)));
            vassert!(["C19", "C08"], got.is_some() == fits, "a text of {} bytes with a wide end", s.len());
            if let Some(b) = got {
                vassert!(["C19", "C02"], b[..] == s[..], "a text of {} bytes with a wide end reads differently", s.len());
            }
        }
        ctx::sample(|| "texts around a limit".to_string());
    })
}

// ---------------------------------------------------------------- array initializers

const GUARD: usize = 3;
const PAT: u8 = 0x3C;
const T20: [&str; 4] = ["C20", "C02", "C01", "C03"];

/// A slice to fill, between guards.
struct Slots<E> {
    v: Vec<MaybeUninit<E>>,
    n: usize,
}
impl<E: Elem> Slots<E> {
    fn new(n: usize) -> Self {
        let mut v: Vec<MaybeUninit<E>> = Vec::with_capacity(n + 2 * GUARD);
        unsafe {
            std::ptr::write_bytes(v.as_mut_ptr(), PAT, n + 2 * GUARD);
            v.set_len(n + 2 * GUARD);
        }
        Slots { v, n }
    }
    fn dst(&mut self) -> &mut [MaybeUninit<E>] {
        let n = self.n;
        &mut self.v[GUARD..GUARD + n]
    }
    fn bytes_ok(&self, from: usize, to: usize) -> bool {
        let p = self.v.as_ptr() as *const u8;
        (from * size_of::<E>()..to * size_of::<E>()).all(|i| unsafe { *p.add(i) } == PAT)
    }
    fn guards_ok(&self, what: &str) {
        let ok = self.bytes_ok(0, GUARD) && self.bytes_ok(GUARD + self.n, self.n + 2 * GUARD);
        vassert!(["C20", "C01"], ok, "{} of {} x {} wrote outside the slice", what, self.n, E::NAME);
    }
    /// All slots are initialized: reads and drops them.
    fn finish(mut self, what: &str, want: &[u64]) {
        self.guards_ok(what);
        if ctx::poisoned() {
            return;
        }
        let vals: Vec<u64> = self.dst().iter().map(|s| unsafe { s.assume_init_ref() }.get()).collect();
        ctx::poll();
        vassert!(T20, vals == want, "{} of {} x {} gives {:x?} instead of {:x?}", what, self.n, E::NAME, &vals[..vals.len().min(12)], &want[..want.len().min(12)]);
        if ctx::poisoned() {
            return;
        }
        for s in self.dst() {
            unsafe { s.assume_init_drop() }
        }
        ctx::poll();
    }
}
/// An iterator that logs, and may lie about its size or go on after its end.
struct Src<'a, E: Elem> {
    vals: &'a [u64],
    at: usize,
    /// The call that returns `None` although values remain.
    gap: usize,
    calls: &'a std::cell::Cell<usize>,
    hint: (usize, Option<usize>),
    p: std::marker::PhantomData<E>,
}
impl<'a, E: Elem> Iterator for Src<'a, E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        let c = self.calls.get();
        self.calls.set(c + 1);
        tok::tick(tok::ITER);
        if c == self.gap {
            return None;
        }
        let x = self.vals.get(self.at)?;
        self.at += 1;
        Some(E::mk(*x))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
impl<'a, E: Elem> ExactSizeIterator for Src<'a, E> {
    fn len(&self) -> usize {
        self.hint.0
    }
}

fn array_init_case<E: Elem>(env: &Env, r: &mut Rng, with_default: bool) {
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        2..=6 => r.range(2, 12),
        7..=8 => r.range(13, 70),
        _ if env.miri => 5,
        // Around the powers of two.
        _ if r.chance(1, 4) => (1usize << r.range(7, 17)) - 1 + r.below(4),
        _ => r.range(70, 1200),
    };
    let vals: Vec<u64> = (0..n + 9).map(|_| E::norm(r.u64())).collect();
    let live0 = tok::live();
    let mut slots = Slots::<E>::new(n);
    let calls = std::cell::Cell::new(0usize);
    let src = |have: usize, gap: usize, hint| Src::<E> { vals: &vals[..have], at: 0, gap, calls: &calls, hint, p: std::marker::PhantomData };
    let hint = *r.pick(&[(0, None), (usize::MAX, None), (0, Some(0)), (n, Some(n)), (n / 2, Some(n + 3)), (3, Some(1))]);
    let how = r.below(12);
    let mut leak_ok = false;
    match how {
        0 => {
            ctx::count("ai.iter_exact");
            let s = src(n, usize::MAX, hint);
            lib(|| FromIterPrefix(s).initialize(slots.dst()));
            vassert!(T20, calls.get() == n, "FromIterPrefix of {} took {} items", n, calls.get());
            slots.finish("FromIterPrefix", &vals[..n]);
        }
        1 => {
            ctx::count("ai.iter_longer");
            let mut s = src(n + 9, usize::MAX, hint);
            lib(|| FromIterPrefix(s.by_ref()).initialize(slots.dst()));
            vassert!(T20, calls.get() == n && s.at == n, "FromIterPrefix of {} took {} items", n, calls.get());
            let mut rest: Vec<u64> = Vec::new();
            for e in s {
                rest.push(e.get());
            }
            vassert!(T20, rest == vals[n..], "FromIterPrefix of {} left other items", n);
            slots.finish("FromIterPrefix of a longer iterator", &vals[..n]);
        }
        2 => {
            ctx::count("ai.iter_shorter");
            if n == 0 {
                return;
            }
            let k = r.below(n);
            let s = src(k, usize::MAX, hint);
            let res = ctx::catch(|| lib(|| FromIterPrefix(s).initialize(slots.dst())));
            vassert!(T20, matches!(res, Err(Caught::Panic(_))), "FromIterPrefix of {} accepts {} items: {:?}", n, k, res);
            slots.guards_ok("FromIterPrefix");
            leak_ok = true;
        }
        3 => {
            ctx::count("ai.iter_gap");
            if n == 0 {
                return;
            }
            let k = r.below(n);
            let s = src(n + 9, k, hint);
            let res = ctx::catch(|| lib(|| FromIterPrefix(s).initialize(slots.dst())));
            vassert!(T20, matches!(res, Err(Caught::Panic(_))), "FromIterPrefix of {} goes on after the end of an iterator: {:?}", n, res);
            slots.guards_ok("FromIterPrefix");
            leak_ok = true;
        }
        4 | 5 => {
            ctx::count("ai.fill_seq");
            let log = std::cell::RefCell::new(Vec::new());
            lib(|| {
                FillSequentially(|i: usize| {
                    user(|| log.borrow_mut().push(i));
                    E::mk(*vals.get(i).unwrap_or(&0))
                })
                .initialize(slots.dst())
            });
            let log = log.into_inner();
            vassert!(T20, log.len() == n && log.iter().enumerate().all(|(i, x)| i == *x), "FillSequentially of {} called with {:?}", n, &log[..log.len().min(12)]);
            slots.finish("FillSequentially", &vals[..n]);
        }
        6 => {
            if !with_default {
                return;
            }
            ctx::count("ai.default");
            let c0 = tok::counts();
            if let Some(i) = E::arr_default() {
                lib(|| i.initialize(slots.dst()));
                let c1 = tok::counts();
                if E::EVENTS > 0 {
                    vassert!(T20, c1.created - c0.created == n as u64 && c1.dropped == c0.dropped, "FillWithDefault of {} created {} values", n, c1.created - c0.created);
                }
                slots.finish("FillWithDefault", &vec![E::dflt(); n]);
            }
        }
        7 => {
            let v: Vec<E> = vals[..n].iter().map(|x| E::mk(*x)).collect();
            let wrong = r.chance(1, 3);
            let k = if wrong { if r.chance(1, 2) { n + r.range(1, 5) } else { n.saturating_sub(r.range(1, 4)) } } else { n };
            let mut v = v;
            v.truncate(k);
            while v.len() < k {
                v.push(E::mk(5))
            }
            let Some(i) = E::arr_copy(v) else { return };
            ctx::count(if k == n { "ai.copy" } else { "ai.copy_wrong" });
            if k == n {
                lib(|| i.initialize(slots.dst()));
                slots.finish("CopyFrom", &vals[..n]);
            } else {
                let res = ctx::catch(|| lib(|| i.initialize(slots.dst())));
                vassert!(T20, matches!(res, Err(Caught::Panic(_))), "CopyFrom of {} into {}: {:?}", k, n, res);
                slots.guards_ok("CopyFrom");
            }
        }
        8 | 9 => {
            let wrong = r.chance(1, 3);
            let k = if wrong { if r.chance(1, 2) { n + r.range(1, 5) } else { n.saturating_sub(r.range(1, 4)) } } else { n };
            let v: Vec<E> = (0..k).map(|i| E::mk(vals[i])).collect();
            if !E::CLONE {
                return;
            }
            let before: Vec<u64> = v.iter().map(|x| x.get()).collect();
            let c0 = tok::counts();
            let i = E::arr_clone(v).unwrap();
            ctx::count(if k == n { "ai.clone" } else { "ai.clone_wrong" });
            if k == n {
                lib(|| i.initialize(slots.dst()));
                let c1 = tok::counts();
                if E::EVENTS > 0 {
                    vassert!(["C20", "C15"], c1.cloned - c0.cloned == n as u64, "CloneFrom of {} called Clone {} times", n, c1.cloned - c0.cloned);
                }
                slots.finish("CloneFrom", &vals[..n]);
            } else {
                let res = ctx::catch(|| lib(|| i.initialize(slots.dst())));
                vassert!(T20, matches!(res, Err(Caught::Panic(_))), "CloneFrom of {} into {}: {:?}", k, n, res);
                slots.guards_ok("CloneFrom");
                let c1 = tok::counts();
                leak_ok = c1.cloned != c0.cloned;
            }
            let _ = before;
        }
        10 => {
            ctx::count("ai.panic");
            if n == 0 || E::EVENTS == 0 {
                return;
            }
            // The function panics part-way: nothing is used uninitialized, nothing is dropped twice.
            let k = r.below(n);
            tok::plan(tok::CREATE, k as i64);
            let res = ctx::catch(|| lib(|| FillSequentially(|i: usize| E::mk(vals[i])).initialize(slots.dst())));
            tok::clear_plan();
            vassert!(["C20", "C04"], matches!(res, Err(Caught::Planned)), "a panic in FillSequentially's function does not propagate: {:?}", res);
            slots.guards_ok("FillSequentially");
            vassert!(["C20", "C04", "C03"], tok::live() >= live0, "a panic in FillSequentially's function drops what was never made");
            leak_ok = true;
        }
        _ => {
            ctx::count("ai.move");
            move_case::<E, 0>(&vals, r);
            move_case::<E, 1>(&vals, r);
            move_case::<E, 2>(&vals, r);
            move_case::<E, 5>(&vals, r);
            move_case::<E, 17>(&[&vals[..], &vals[..], &[1; 20]].concat(), r);
            array_case::<E, 0>(r);
            array_case::<E, 3>(r);
            array_case::<E, 33>(r);
            #[cfg(not(miri))]
            if r.chance(1, 10) {
                array_case::<E, 1025>(r);
                let many: Vec<u64> = (0..1026u64).map(|i| i * 7919).collect();
                move_case::<E, 1024>(&many, r);
                move_case::<E, 257>(&many, r);
            }
        }
    }
    ctx::poll();
    let live = tok::live() - LEFT.with(|l| l.get());
    vassert!(["C20", "C03"], live >= live0, "array initializers: {} values fewer than before", live0 - live);
    vassert!(["C20", "C03"], leak_ok || live == live0, "array initializers: {} values too many are left (how {})", live - live0, how);
    ctx::distinct(mix(mix(how as u64, n as u64), mix(E::NAME.len() as u64 * 31 + E::NAME.as_bytes()[0] as u64, vals.first().copied().unwrap_or(0))));
    ctx::sample(|| format!("{} x {}, variant {}", n, E::NAME, how));
}
fn move_case<E: Elem, const N: usize>(vals: &[u64], r: &mut Rng) {
    let want: Vec<u64> = vals.iter().chain([3u64; 40].iter()).take(N).map(|x| E::norm(*x)).collect();
    let c0 = tok::counts();
    let mut it = want.iter();
    let a: [E; N] = std::array::from_fn(|_| E::mk(*it.next().unwrap()));
    let k = if r.chance(1, 2) { N } else { (N + r.below(4)).saturating_sub(r.below(3)) };
    let mut slots = Slots::<E>::new(k);
    let live = tok::live();
    let res = ctx::catch(|| lib(|| MoveFrom(a).initialize(slots.dst())));
    if k == N {
        vassert!(T20, res.is_ok(), "MoveFrom of {} into {}: {:?}", N, k, res);
        let c1 = tok::counts();
        if E::EVENTS > 0 {
            vassert!(T20, c1.cloned == c0.cloned && c1.dropped == c0.dropped && c1.created - c0.created == N as u64, "MoveFrom of {} cloned or dropped values", N);
        }
        slots.finish("MoveFrom", &want);
    } else {
        vassert!(T20, matches!(res, Err(Caught::Panic(_))), "MoveFrom of {} into {}: {:?}", N, k, res);
        slots.guards_ok("MoveFrom");
        // The moved values are dropped (or leaked), never twice.
        vassert!(["C20", "C03"], tok::live() <= live, "MoveFrom duplicated values");
        let left = tok::live() - (live - N as i64 * E::TOKS as i64);
        if left != 0 {
            ctx::count("ai.move_wrong_leaked");
        }
        LEFT.with(|l| l.set(l.get() + left));
    }
}
thread_local! { static LEFT: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
/// `new_array`.
fn array_case<E: Elem, const N: usize>(r: &mut Rng) {
    let x = r.u64();
    let mut calls = 0;
    let a: [E; N] = new_array(FillSequentially(|i| {
        calls += 1;
        E::mk(x.wrapping_add(i as u64))
    }));
    vassert!(T20, calls == N, "new_array of {} called the function {} times", N, calls);
    for (i, e) in a.iter().enumerate() {
        let w = E::norm(x.wrapping_add(i as u64));
        let g = e.get();
        vassert!(T20, g == w, "new_array: element {} of {} is {:#x} instead of {:#x}", i, N, g, w);
    }
    let b: [E; N] = new_array(MoveFrom(a));
    for (i, e) in b.iter().enumerate() {
        vassert!(T20, e.get() == E::norm(x.wrapping_add(i as u64)), "new_array of MoveFrom: element {} of {}", i, N);
    }
    let mut k = 0u64;
    let c: [E; N] = new_array(FromIterPrefix(std::iter::from_fn(|| {
        k += 1;
        Some(E::mk(k))
    })));
    vassert!(T20, k == N as u64, "new_array of an infinite iterator took {} items of {}", k, N);
    for (i, e) in c.iter().enumerate() {
        vassert!(T20, e.get() == E::norm(i as u64 + 1), "new_array of an iterator: element {} of {}", i, N);
    }
    ctx::count("ai.new_array");
}
/// In a boxed array: a source of the wrong length panics, the right one fills.
fn boxed_init_case<L: LenT>(r: &mut Rng) {
    let n = r.below(20);
    let k = if r.chance(1, 2) { n } else { r.below(20) };
    let live0 = tok::live();
    let how = r.below(4);
    let src: Vec<Tok> = (0..k).map(|i| Tok::new(i as u64 * 3)).collect();
    let nums: Vec<u16> = (0..k).map(|i| i as u16 * 3).collect();
    let mut left = None;
    let res = match how {
        0 => ctx::catch(|| lib(|| VBox::<Array<Tok, L>>::new(SizedInit(L::of(n), CloneFrom(&src))))).map(|b| b.iter().map(|t| t.val()).collect::<Vec<_>>()),
        1 => ctx::catch(|| lib(|| VBox::<Array<u16, L>>::new(SizedInit(L::of(n), CopyFrom(&nums))))).map(|b| b.iter().map(|t| *t as u64).collect()),
        2 => {
            let mut it = src.clone().into_iter();
            let r = ctx::catch(|| lib(|| VBox::<Array<Tok, L>>::new(SizedInit(L::of(n), FromIterPrefix(it.by_ref()))))).map(|b| b.iter().map(|t| t.val()).collect());
            left = Some(it.len());
            r
        }
        _ => {
            let r = ctx::catch(|| lib(|| VBox::<Array<Tok, L>>::new(SizedInit(L::of(n), FillWithDefault)))).map(|b| b.iter().map(|t| t.val() + 3 * t.val()).collect::<Vec<_>>());
            vassert!(T20, matches!(&r, Ok(v) if *v == vec![0; n]), "FillWithDefault of {} in a box: {:?}", n, r);
            r
        }
    };
    drop(src);
    if how < 3 {
        let want: Vec<u64> = (0..n as u64).map(|i| i * 3).collect();
        let ok = if how == 2 { k >= n } else { k == n };
        if ok {
            vassert!(T20, matches!(&res, Ok(v) if *v == want), "initializer {} of {} values for {} in a box: {:?}", how, k, n, res);
        } else {
            vassert!(T20, matches!(res, Err(Caught::Panic(_))), "initializer {} of {} values for {} in a box: {:?}", how, k, n, res);
        }
        if let (Some(l), true) = (left, ok) {
            vassert!(T20, l == k - n, "FromIterPrefix left {} of {} items", l, k - n);
        }
        vassert!(["C20", "C03"], tok::live() >= live0 && (!ok || tok::live() == live0), "initializer {} in a box: {} values more", how, tok::live() - live0);
    }
    ctx::count("ai.boxed");
    drop(res);
    ctx::poll();
}
pub fn d_array_init(env: &Env, name: &str, no: u64) {
    let k = no % 12;
    let shape = ["u8", "u64", "Tok", "TokS", "ZTok", "Owning", "()", "[u8;3]", "Plain", "Mark", "ZMark", "boxed"][k as usize];
    ctx::case(name, no, shape, |r| {
        for _ in 0..if env.miri { 2 } else { 6 } {
            if ctx::poisoned() {
                return;
            }
            LEFT.with(|l| l.set(0));
            match k {
                0 => array_init_case::<u8>(env, r, true),
                1 => array_init_case::<u64>(env, r, true),
                2 => array_init_case::<Tok>(env, r, true),
                3 => array_init_case::<TokS>(env, r, true),
                4 => array_init_case::<ZTok>(env, r, true),
                5 => array_init_case::<Owning>(env, r, false),
                6 => array_init_case::<()>(env, r, true),
                7 => array_init_case::<[u8; 3]>(env, r, true),
                8 => array_init_case::<Plain>(env, r, false),
                9 => array_init_case::<Mark>(env, r, true),
                10 => array_init_case::<ZMark>(env, r, true),
                _ => match r.below(4) {
                    0 => boxed_init_case::<u8>(r),
                    1 => boxed_init_case::<u16>(r),
                    2 => boxed_init_case::<u32>(r),
                    _ => boxed_init_case::<usize>(r),
                },
            }
        }
    })
}

// ---------------------------------------------------------------- amortized cost

/// Appends arrays of the given lengths, in one of the ways there are.
fn append<E: Copy, L: ArrayLen, I: Indexing>(q: &mut Seq<Array<E, L>, I>, buf: &[E], lens: &[usize], way: usize) {
    let init = |n: &usize| Array::<E, L>::try_copy(&buf[..*n]).unwrap();
    match way {
        0 => {
            for n in lens {
                q.push(init(n))
            }
        }
        1 => {
            for n in lens {
                q.extend(Some(init(n)))
            }
        }
        2 => {
            for n in lens {
                q.extend(std::iter::once(n).map(init))
            }
        }
        3 => q.extend(lens.iter().map(init)),
        4 => q.extend(user(|| lens.iter().map(init).collect::<Vec<_>>())),
        // Without a useful `size_hint`.
        5 => {
            let mut it = lens.iter();
            q.extend(std::iter::from_fn(|| it.next().map(init)))
        }
        // With an upper limit only.
        _ => q.extend(lens.iter().filter(|n| **n != usize::MAX).map(init)),
    }
}
const WAYS: usize = 7;

fn amortized<E: Copy, L: ArrayLen, I: Indexing>(env: &Env, r: &mut Rng, style: usize, fill: E) {
    let t13 = ["C13"];
    let mut q: Seq<Array<E, L>, I> = Seq::new();
    let esz = size_of::<E>();
    let (count, big): (usize, usize) = match style {
        0 => (r.range(1000, 60000), 0),
        1 => (r.range(200, 4000), 400),
        2 => (r.range(20, 400), 20000 / esz),
        3 => (r.range(10, 60), 600_000 / esz),
        _ => (r.range(100, 1000), 2000),
    };
    let most = if size_of::<L>() == 1 { 255 } else { usize::MAX };
    let count = if env.miri { count.min(60) } else { count };
    let t0 = galloc::totals();
    let buf = vec![fill; big + 64];
    let mut bytes = 0u64;
    let mut cap = 0;
    let mut grows = 0u64;
    let unit = <Array<E, L> as VarLen>::ALIGN as u64;
    // Elements are appended one by one, or in groups of up to so many.
    let group = *r.pick(&[1, 1, 2, 5, 40]);
    let mixed = r.chance(1, 3);
    let mut way = r.below(WAYS);
    // Lengths of the elements now in the sequence.
    let mut now: Vec<usize> = Vec::new();
    let mut done = 0;
    while done < count {
        let k = r.range(1, group).min(count - done);
        let lens: Vec<usize> = (0..k)
            .map(|_| {
                most.min(match style {
                    0 => r.below(3),
                    1 => r.below(400),
                    2 => r.range(big / 20, big),
                    3 => r.range(big / 6, big),
                    // Mostly tiny, sometimes large.
                    _ => {
                        if r.chance(1, 20) {
                            r.below(2000)
                        } else {
                            r.below(8)
                        }
                    }
                })
            })
            .collect();
        if mixed {
            way = r.below(WAYS)
        }
        lib(|| append(&mut q, &buf, &lens, way));
        bytes += lens.iter().map(|n| up((up(size_of::<L>(), align_of::<E>()) + n * esz).max(1), unit as usize) as u64).sum::<u64>();
        done += k;
        now.extend(lens);
        let c = q.capacity_in_offsets();
        if c != cap {
            grows += 1;
            vassert!(t13, c > cap, "the capacity shrank from {} to {}", cap, c);
            cap = c;
        }
        vassert!(["C13", "C01"], c >= q.offset(), "capacity {} is less than the {} units occupied", c, q.offset());
        if ctx::poisoned() {
            return;
        }
    }
    vassert!(["C13", "C06", "C12"], q.offset() as u64 * unit == bytes, "{} units are occupied by {} bytes", q.offset(), bytes);
    vassert!(["C13", "C10"], q.len() == now.len(), "{} elements instead of {}", q.len(), now.len());
    let t1 = galloc::totals();
    let n = (t1.allocs + t1.reallocs) - (t0.allocs + t0.reallocs);
    let asked = t1.bytes - t0.bytes;
    let log = 64 - (bytes / unit).max(1).leading_zeros() as u64;
    vassert!(t13, grows <= 4 * log + 8, "{} changes of capacity for {} bytes in {} elements", grows, bytes, count);
    if galloc::ON {
        vassert!(t13, n <= 4 * log + 8, "{} allocations for {} bytes in {} elements", n, bytes, count);
        vassert!(t13, asked <= 16 * bytes + 8192, "{} bytes requested for {} bytes in {} elements", asked, bytes, count);
        vassert!(t13, cap as u64 * unit <= 8 * bytes + 1024, "capacity {} units for {} bytes", cap, bytes);
    }
    ctx::max("max.reallocations", n);
    ctx::add("amortized.bytes", bytes);
    ctx::add("amortized.pushes", count as u64);
    ctx::count(&format!("amortized.{}", if mixed { "mixed ways" } else { ["push", "extend by Some", "extend by once", "extend by map", "extend by Vec", "extend by from_fn", "extend by filter"][way] }));
    // Refilling uses the same storage.
    for round in 0..3 {
        let mut lens: Vec<usize> = q.iter().map(|x| x.len()).collect();
        galloc::mark();
        match r.below(4) {
            0 => drop(q.take_elems()),
            1 => {
                let mut it = q.take_elems();
                for _ in 0..r.below(lens.len() + 1) {
                    it.next();
                }
            }
            2 => std::mem::forget(q.take_elems()),
            _ => {
                for x in q.take_elems() {
                    drop(x)
                }
            }
        }
        vassert!(["C13", "C14"], q.capacity_in_offsets() == cap, "taking all elements changed the capacity from {} to {}", cap, q.capacity_in_offsets());
        vassert!(["C13", "C14"], q.len() == 0 && q.offset() == 0, "not empty after taking");
        if r.chance(1, 2) {
            lens.reverse()
        }
        if round == 2 {
            let k = r.below(lens.len() + 1);
            lens.truncate(k);
        }
        // In groups, and by another way than before. (What user code allocates is not counted.)
        let way = r.below(WAYS);
        for g in lens.chunks(r.range(1, lens.len().max(1))) {
            lib(|| append(&mut q, &buf, g, way));
        }
        vassert!(t13, q.capacity_in_offsets() == cap, "refilling changed the capacity from {} to {}", cap, q.capacity_in_offsets());
        vassert!(t13, galloc::events().1 == 0, "refilling with no more than before did {} heap operations", galloc::events().1);
        vassert!(["C13", "C10"], q.len() == lens.len(), "{} elements instead of {}", q.len(), lens.len());
        ctx::count("amortized.refills");
        if ctx::poisoned() {
            return;
        }
    }
    lib(|| drop(q));
    galloc::flush_quarantine();
    ctx::poll();
    ctx::distinct(mix(bytes, count as u64));
    ctx::sample(|| format!("{} elements, {} bytes: {} allocations of {} bytes in total", count, bytes, n, asked));
}
pub fn d_amortized(env: &Env, name: &str, no: u64) {
    ctx::case(name, no, ["unchecked", "checked"][(no % 2) as usize], |r| {
        let style = if no % 16 == 3 && !env.miri { 3 } else { [0, 1, 4, 2][(no / 2 % 4) as usize] };
        macro_rules! go {
            ($e:ty, $l:ty) => {
                if no % 2 == 0 {
                    amortized::<$e, $l, varlen::seq::UncheckedIndexing>(env, r, style, 7)
                } else {
                    amortized::<$e, $l, varlen::seq::CheckedIndexing>(env, r, style, 7)
                }
            };
        }
        match r.below(8) {
            0..=3 => go!(u8, u32),
            4 => go!(u8, u8),
            5 => go!(u64, u8),
            6 => go!(u16, usize),
            _ => go!(u8, usize),
        }
    })
}

// ---------------------------------------------------------------- failing allocations

/// Forks at a random point of a history; in each child one allocation of one operation fails.
#[cfg(not(miri))]
pub fn d_alloc_fail(env: &Env, name: &str, no: u64) {
    use crate::sys::End;
    use crate::world::{default_weight, Op, World, OPS};
    let n = env.types.len() as u64;
    let t = env.types[(no % n) as usize];
    ctx::case(name, no, &(t.name)(), |r: &mut Rng| {
        let mut g = Gen::new(r.fork());
        g.max_len = 30;
        let bump = Bump::new();
        let mut world = World::new(t, g, &bump);
        world.max_objs = 4;
        world.max_elems = 24;
        let w: Vec<u32> = OPS.iter().map(|o| match o { Op::Panicking | Op::Huge => 0, o => default_weight(*o) }).collect();
        let mut h = 0;
        for _ in 0..r.range(2, 40) {
            let op = OPS[r.weighted(&w)];
            if world.step(op) {
                h = mix(h, op as u64);
                world.check(false);
            }
        }
        if ctx::poisoned() {
            return;
        }
        for what in 0..crate::world::FAULTS {
            let mut n = 0;
            loop {
                ctx::trace(|| format!("operation {} with allocation {} failing", what, n));
                let (end, err) = crate::sys::child(|| {
                    ctx::clear_counters();
                    let failed0 = galloc::totals().failed;
                    let done = world.alloc_failing(n, what);
                    let hit = galloc::totals().failed != failed0;
                    if hit {
                        ctx::count("af.fired");
                    }
                    world.check(true);
                    if done && hit {
                        for _ in 0..6 {
                            let op = OPS[world.g.r.weighted(&w)];
                            if world.step(op) {
                                world.check(false);
                            }
                        }
                        // The child ends without returning, so the original is not dropped as well.
                        unsafe { std::ptr::read(&world) }.finish();
                        ctx::poll();
                        ctx::count("af.survived");
                    }
                    if ctx::poisoned() {
                        ctx::count("af.judged_elsewhere");
                    }
                    eprintln!("COUNTS {}", ctx::counters_line());
                    ctx::quick_exit(if hit { 40 } else { 41 });
                });
                for l in err.lines() {
                    if let Some(l) = l.strip_prefix("COUNTS ") {
                        ctx::add_counters(l);
                    }
                }
                match end {
                    End::Exit(40) => {}
                    End::Exit(41) => break,
                    End::Exit(1) => ctx::quick_exit(1), // Reported by the child.
                    End::Signal(6) if err.contains("memory allocation of") => ctx::count("af.aborted"),
                    End::Exit(c) => {
                        fail(&["C09"], format!("operation {} with allocation {} failing: exit status {}: {}", what, n, c, tail(&err)));
                        return;
                    }
                    End::Signal(s) => {
                        fail(&["C09", "C01"], format!("operation {} with allocation {} failing: signal {}: {}", what, n, s, tail(&err)));
                        return;
                    }
                }
                ctx::count("af.injected");
                ctx::distinct(mix(mix(h, what as u64), n as u64));
                n += 1;
                if n > 12 {
                    break;
                }
            }
        }
        let name = world.name.clone();
        std::mem::drop(world.finish());
        ctx::sample(|| format!("{}: every allocation of {} operations fails in turn", name, crate::world::FAULTS));
        lib(|| drop(bump));
        galloc::flush_quarantine();
        ctx::poll();
    })
}
#[cfg(not(miri))]
fn tail(s: &str) -> String {
    let s = s.trim();
    let n = s.len().saturating_sub(300);
    s.get(n..).unwrap_or(s).to_string()
}

#[allow(dead_code)]
fn _unused(_: Pin<&mut u8>) {}
