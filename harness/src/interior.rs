//! Contents with interior mutability (Cell, RefCell, atomics), changed through shared references, in code
//! optimized enough for wrong promises about the memory behind those references to show.
use crate::ctx;
use crate::rng::{mix, Rng};
use crate::run::Env;
use crate::vassert;
use bumpalo::Bump;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU16, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use varlen::array::SizedInit;
use varlen::prelude::*;

const T: [&str; 3] = ["C01", "C02", "C16"];

/// A place whose value a shared reference can change.
pub trait Place: 'static {
    const MASK: u64;
    fn new(v: u64) -> Self;
    fn get(&self) -> u64;
    fn set(&self, v: u64);
}
macro_rules! place_cell {
    ($($t:ty),*) => {$(
        impl Place for Cell<$t> {
            const MASK: u64 = <$t>::MAX as u64;
            fn new(v: u64) -> Self { Cell::new(v as $t) }
            #[inline(always)]
            fn get(&self) -> u64 { Cell::get(self) as u64 }
            #[inline(always)]
            fn set(&self, v: u64) { Cell::set(self, v as $t) }
        }
    )*}
}
place_cell!(u8, u16, u64);
macro_rules! place_atomic {
    ($($a:ty, $t:ty);*) => {$(
        impl Place for $a {
            const MASK: u64 = <$t>::MAX as u64;
            fn new(v: u64) -> Self { <$a>::new(v as $t) }
            #[inline(always)]
            fn get(&self) -> u64 { self.load(Relaxed) as u64 }
            #[inline(always)]
            fn set(&self, v: u64) { self.store(v as $t, Relaxed) }
        }
    )*}
}
place_atomic!(AtomicU16, u16; AtomicU64, u64);
impl Place for AtomicBool {
    const MASK: u64 = 1;
    fn new(v: u64) -> Self {
        AtomicBool::new(v & 1 == 1)
    }
    #[inline(always)]
    fn get(&self) -> u64 {
        self.load(Relaxed) as u64
    }
    #[inline(always)]
    fn set(&self, v: u64) {
        self.store(v & 1 == 1, Relaxed)
    }
}
impl Place for RefCell<u32> {
    const MASK: u64 = u32::MAX as u64;
    fn new(v: u64) -> Self {
        RefCell::new(v as u32)
    }
    #[inline(always)]
    fn get(&self) -> u64 {
        *self.borrow() as u64
    }
    #[inline(always)]
    fn set(&self, v: u64) {
        *self.borrow_mut() = v as u32
    }
}
impl Place for Mutex<u8> {
    const MASK: u64 = u8::MAX as u64;
    fn new(v: u64) -> Self {
        Mutex::new(v as u8)
    }
    #[inline(always)]
    fn get(&self) -> u64 {
        *self.lock().unwrap() as u64
    }
    #[inline(always)]
    fn set(&self, v: u64) {
        *self.lock().unwrap() = v as u8
    }
}
/// Interior mutability next to plain bytes.
pub struct Mixed {
    plain: u8,
    cell: Cell<u32>,
}
impl Place for Mixed {
    const MASK: u64 = u32::MAX as u64;
    fn new(v: u64) -> Self {
        Mixed { plain: 77, cell: Cell::new(v as u32) }
    }
    #[inline(always)]
    fn get(&self) -> u64 {
        self.cell.get() as u64 + (self.plain as u64 - 77) * 1000
    }
    #[inline(always)]
    fn set(&self, v: u64) {
        self.cell.set(v as u32)
    }
}

/// A variable-length type that has places.
trait Cells: VarLen + 'static {
    const NAME: &'static str;
    fn mk(v: &[u64]) -> VBox<Self>;
    fn count(&self) -> usize;
    fn at(&self, i: usize) -> u64;
    fn put(&self, i: usize, v: u64);
    fn mask(i: usize) -> u64;
}
impl<P: Place> Cells for Array<P> {
    const NAME: &'static str = "Array<P>";
    fn mk(v: &[u64]) -> VBox<Self> {
        VBox::new(SizedInit(v.len(), FillSequentially(|i| P::new(v[i]))))
    }
    #[inline(always)]
    fn count(&self) -> usize {
        self.len()
    }
    #[inline(always)]
    fn at(&self, i: usize) -> u64 {
        self[i].get()
    }
    #[inline(always)]
    fn put(&self, i: usize, v: u64) {
        self[i].set(v)
    }
    fn mask(_: usize) -> u64 {
        P::MASK
    }
}
impl<P: Place, Q: Place> Cells for Tup3<FixedLen<P>, Array<Q, u8>, FixedLen<Q>> {
    const NAME: &'static str = "Tup3<F<P>,Array<Q,u8>,F<Q>>";
    fn mk(v: &[u64]) -> VBox<Self> {
        let k = v.len() - 2;
        VBox::new(tup3::Init(FixedLen(P::new(v[0])), SizedInit(k as u8, FillSequentially(|i| Q::new(v[1 + i]))), FixedLen(Q::new(v[k + 1]))))
    }
    #[inline(always)]
    fn count(&self) -> usize {
        self.refs().1.len() + 2
    }
    #[inline(always)]
    fn at(&self, i: usize) -> u64 {
        let r = self.refs();
        let k = r.1.len();
        if i == 0 {
            (r.0).0.get()
        } else if i <= k {
            r.1[i - 1].get()
        } else {
            (r.2).0.get()
        }
    }
    #[inline(always)]
    fn put(&self, i: usize, v: u64) {
        let r = self.refs();
        let k = r.1.len();
        if i == 0 {
            (r.0).0.set(v)
        } else if i <= k {
            r.1[i - 1].set(v)
        } else {
            (r.2).0.set(v)
        }
    }
    fn mask(i: usize) -> u64 {
        if i == 0 {
            P::MASK
        } else {
            Q::MASK
        }
    }
}
#[define_varlen]
pub struct Slots<P: Place, Q: Place> {
    #[controls_layout]
    n: u8,
    head: P,
    #[varlen]
    more: Array<Q, u8>,
    #[varlen_array]
    slots: [P; *n as usize],
}
impl<P: Place, Q: Place> Cells for Slots<P, Q> {
    const NAME: &'static str = "struct Slots";
    fn mk(v: &[u64]) -> VBox<Self> {
        let k = v.len() - 3;
        VBox::new(slots::Init {
            n: k as u8,
            head: P::new(v[0]),
            more: SizedInit(2u8, FillSequentially(|i| Q::new(v[1 + i]))),
            slots: FillSequentially(|i| P::new(v[3 + i])),
        })
    }
    #[inline(always)]
    fn count(&self) -> usize {
        self.refs().slots.len() + 3
    }
    #[inline(always)]
    fn at(&self, i: usize) -> u64 {
        let r = self.refs();
        match i {
            0 => r.head.get(),
            1 | 2 => r.more[i - 1].get(),
            _ => r.slots[i - 3].get(),
        }
    }
    #[inline(always)]
    fn put(&self, i: usize, v: u64) {
        let r = self.refs();
        match i {
            0 => r.head.set(v),
            1 | 2 => r.more[i - 1].set(v),
            _ => r.slots[i - 3].set(v),
        }
    }
    fn mask(i: usize) -> u64 {
        if i == 1 || i == 2 {
            Q::MASK
        } else {
            P::MASK
        }
    }
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NtSlots<(P: Place)>(Tup2<FixedLen<u8>, Array<P, u16>>);
    with signature: impl<(P: Place)> NtSlots<(P)> { _ }
    with init: pub struct NtSlotsInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
impl<P: Place> Cells for NtSlots<P> {
    const NAME: &'static str = "newtype NtSlots";
    fn mk(v: &[u64]) -> VBox<Self> {
        VBox::new(NtSlotsInit(tup2::Init(FixedLen(3u8), SizedInit(v.len() as u16, FillSequentially(|i| P::new(v[i]))))))
    }
    #[inline(always)]
    fn count(&self) -> usize {
        self.inner().refs().1.len()
    }
    #[inline(always)]
    fn at(&self, i: usize) -> u64 {
        self.inner().refs().1[i].get()
    }
    #[inline(always)]
    fn put(&self, i: usize, v: u64) {
        self.inner().refs().1[i].set(v)
    }
    fn mask(_: usize) -> u64 {
        P::MASK
    }
}

#[inline(never)]
fn total<C: Cells>(c: &C) -> u64 {
    let mut s = 0u64;
    for i in 0..c.count() {
        s = mix(s, c.at(i))
    }
    s
}
#[inline(never)]
fn put_all<C: Cells>(c: &C, v: &[u64]) {
    for i in 0..c.count() {
        c.put(i, v[i])
    }
}
#[inline(never)]
fn put_one<C: Cells>(c: &C, i: usize, v: u64) {
    c.put(i, v)
}
#[inline(never)]
fn get_one<C: Cells>(c: &C, i: usize) -> u64 {
    c.at(i)
}
/// Reads before and after writes made by another function, through the same reference.
#[inline(never)]
fn around<C: Cells>(c: &C, v: &[u64]) -> (u64, u64, u64, u64) {
    let a = total(c);
    let x = c.at(0);
    put_all(c, v);
    let y = c.at(0);
    (a, x, total(c), y)
}
/// Reads and writes one place through two references.
#[inline(never)]
fn two<C: Cells>(c: &C, d: &C, i: usize, v: u64) -> (u64, u64, u64) {
    let x = c.at(i);
    d.put(i, v);
    let y = c.at(i);
    put_one(d, i, x);
    (x, y, c.at(i))
}
#[inline(never)]
fn up<C: Cells>(c: &C, i: usize, times: u64) -> u64 {
    for _ in 0..times {
        put_one(c, i, get_one(c, i).wrapping_add(1));
    }
    c.at(i)
}
fn hash_of(v: &[u64]) -> u64 {
    v.iter().fold(0, |s, x| mix(s, *x))
}

fn case_of<C: Cells>(env: &Env, r: &mut Rng, min: usize) {
    let bump = Bump::new();
    let gen = |r: &mut Rng, n: usize| -> Vec<u64> { (0..n).map(|i| r.u64() & C::mask(i)).collect() };
    let mut model: Vec<Vec<u64>> = Vec::new();
    let n = if env.miri { r.range(1, 2) } else { r.range(1, 5) };
    for _ in 0..n {
        let k = min + if env.miri { r.below(3) } else { r.below(9) };
        model.push(gen(r, k));
    }
    let way = r.below(4);
    let mut seq: Seq<C> = Seq::new();
    let mut chk: Seq<C, varlen::seq::CheckedIndexing> = Seq::new();
    let mut boxes: Vec<VBox<C>> = Vec::new();
    let mut owned: Vec<Owned<'_, C>> = Vec::new();
    for m in &model {
        let b = C::mk(m);
        match way {
            0 => boxes.push(b),
            1 => seq.push(b),
            2 => chk.push(b),
            _ => owned.push(Owned::new_in(b, &bump)),
        }
    }
    let objs: Vec<&C> = boxes.iter().map(|x| &**x).chain(seq.iter()).chain(chk.iter()).chain(owned.iter().map(|x| &**x)).collect();
    let lay: Vec<usize> = objs.iter().map(|c| varlen::Layout::size(&c.calculate_layout())).collect();
    let rounds = if env.miri { 3 } else { 12 };
    for _ in 0..rounds {
        let j = r.below(objs.len());
        let m = model[j].clone();
        let c = objs[j];
        let i = r.below(m.len());
        match r.below(4) {
            0 => {
                let v = gen(r, m.len());
                let got = around(c, &v);
                let want = (hash_of(&m), m[0], hash_of(&v), v[0]);
                vassert!(T, got == want, "{}: reads around writes through a shared reference give {:x?} instead of {:x?}", C::NAME, got, want);
                model[j] = v;
            }
            1 => {
                let v = r.u64() & C::mask(i);
                let got = two(c, c, i, v);
                let want = (m[i], v, m[i]);
                vassert!(T, got == want, "{}: reads and writes through two shared references give {:x?} instead of {:x?}", C::NAME, got, want);
            }
            2 => {
                let k = r.below(5) as u64;
                let got = up(c, i, k);
                let want = m[i].wrapping_add(k) & C::mask(i);
                vassert!(T, got == want, "{}: counting up {} times gives {:x} instead of {:x}", C::NAME, k, got, want);
                model[j][i] = want;
            }
            _ => {
                let v = r.u64() & C::mask(i);
                c.put(i, v);
                model[j][i] = v;
                let got = c.at(i);
                vassert!(T, got == v, "{}: written {:x}, read {:x}", C::NAME, v, got);
            }
        }
        for (o, m) in objs.iter().zip(&model) {
            let got: Vec<u64> = (0..o.count()).map(|i| o.at(i)).collect();
            vassert!(T, got == *m, "{}: holds {:x?} instead of {:x?}", C::NAME, got, m);
        }
        if ctx::poisoned() {
            return;
        }
        ctx::count("interior.shared_writes");
    }
    for (o, l) in objs.iter().zip(&lay) {
        let g = varlen::Layout::size(&o.calculate_layout());
        vassert!(["C05", "C16"], g == *l, "{}: size {} became {}", C::NAME, l, g);
    }
    ctx::distinct(mix(hash_of(&model.concat()), C::NAME.len() as u64 * 8 + way as u64));
    ctx::sample(|| format!("{}: {} objects, {} rounds of writes through shared references", C::NAME, n, rounds));
}

pub fn d_interior(env: &Env, name: &str, no: u64) {
    const K: u64 = 14;
    let k = no % K;
    ctx::case(name, no, &k.to_string(), |r| match k {
        0 => case_of::<Array<Cell<u64>>>(env, r, 1),
        1 => case_of::<Tup3<FixedLen<Cell<u8>>, Array<Cell<u16>, u8>, FixedLen<Cell<u16>>>>(env, r, 2),
        2 => case_of::<Slots<Cell<u64>, AtomicU16>>(env, r, 3),
        3 => case_of::<NtSlots<Cell<u8>>>(env, r, 1),
        4 => case_of::<Array<AtomicU64>>(env, r, 1),
        5 => case_of::<Array<RefCell<u32>>>(env, r, 1),
        6 => case_of::<Slots<RefCell<u32>, Mixed>>(env, r, 3),
        7 => case_of::<Tup3<FixedLen<AtomicBool>, Array<AtomicU64, u8>, FixedLen<AtomicU64>>>(env, r, 2),
        8 => case_of::<Array<Mutex<u8>>>(env, r, 1),
        9 => case_of::<NtSlots<AtomicU16>>(env, r, 1),
        10 => case_of::<Array<Mixed>>(env, r, 1),
        11 => case_of::<Slots<AtomicU64, Cell<u8>>>(env, r, 3),
        12 => case_of::<Tup3<FixedLen<Mixed>, Array<Mixed, u8>, FixedLen<Mixed>>>(env, r, 2),
        _ => case_of::<NtSlots<Cell<u64>>>(env, r, 1),
    })
}
