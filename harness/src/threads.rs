//! Concurrent use: many threads read the same objects, mutate disjoint parts, and use containers of their
//! own. Results are compared with the same work done by one thread; race detectors watch the accesses.
use crate::ctx;
use crate::rng::{mix, Rng};
use crate::run::Env;
use crate::vassert;
use bumpalo::Bump;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use varlen::array::Array;
use varlen::prelude::*;
use varlen::Layout as _;

/// A user struct with several arrays and a nested text.
#[define_varlen]
pub struct Shared {
    #[controls_layout]
    n: u8,
    tag: u32,
    #[controls_layout]
    spare: u8,
    #[varlen]
    name: Str<u16>,
    #[varlen_array]
    data: [u64; *n as usize],
    #[varlen_array]
    half: [u8; (*n as usize) / 2],
    #[varlen_array]
    rest: [u8; (*spare & 3) as usize],
}
/// Shared counters: contents that may be changed through shared references.
#[define_varlen]
pub struct Counters {
    #[controls_layout]
    n: u16,
    total: AtomicU64,
    #[varlen_array]
    each: [AtomicU64; *n as usize],
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct SharedText(Tup2<FixedLen<u32>, Str>);
    with init: pub struct SharedTextInit<_>(_);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}

/// A type the threads work on.
trait Work: VarLen + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(r: &mut Rng) -> VBox<Self>;
    /// Everything that can be read.
    fn digest(&self) -> u64;
    fn alter(self: Pin<&mut Self>, by: u64);
    /// The same, with each part of the object altered by a thread of its own.
    fn alter_apart(self: Pin<&mut Self>, by: u64) {
        self.alter(by)
    }
    /// A copy on the reading thread.
    fn twin(&self) -> Option<VBox<Self>>;
}
fn text(r: &mut Rng) -> String {
    let n = r.below(14);
    (0..n).map(|_| *r.pick(&['a', 'b', 'z', 'é', '→', '0'])).collect()
}
fn bytes(h: u64, s: &[u8]) -> u64 {
    s.iter().fold(mix(h, s.len() as u64), |h, b| mix(h, *b as u64))
}
impl Work for Str {
    const NAME: &'static str = "Str";
    fn mk(r: &mut Rng) -> VBox<Self> {
        VBox::new(Str::copy(&text(r)))
    }
    fn digest(&self) -> u64 {
        bytes(self.calculate_layout().size() as u64, self.as_bytes())
    }
    fn alter(self: Pin<&mut Self>, by: u64) {
        let m = self.mut_slice();
        if by & 1 == 0 {
            m.make_ascii_uppercase()
        } else {
            m.make_ascii_lowercase()
        }
    }
    fn twin(&self) -> Option<VBox<Self>> {
        Some(VBox::new(self.vcopy()))
    }
}
impl Work for Array<u16, u8> {
    const NAME: &'static str = "Array<u16,u8>";
    fn mk(r: &mut Rng) -> VBox<Self> {
        let n = r.below(12);
        let v: Vec<u16> = (0..n).map(|_| r.u64() as u16).collect();
        VBox::new(Array::try_copy(&v).unwrap())
    }
    fn digest(&self) -> u64 {
        self.iter().fold(self.len_short() as u64, |h, x| mix(h, *x as u64))
    }
    fn alter(self: Pin<&mut Self>, by: u64) {
        for x in self.mut_slice() {
            *x = x.wrapping_mul(3).wrapping_add(by as u16);
        }
    }
    fn twin(&self) -> Option<VBox<Self>> {
        Some(VBox::new(self.vclone()))
    }
}
impl Work for Tup3<FixedLen<u64>, Array<u8>, Str<u8>> {
    const NAME: &'static str = "Tup3";
    fn mk(r: &mut Rng) -> VBox<Self> {
        let n = r.below(9);
        let v: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
        let t = text(r);
        VBox::new(tup3::Init(FixedLen(r.u64()), Array::copy(&v), Str::try_copy(&t).unwrap()))
    }
    fn digest(&self) -> u64 {
        let x = self.refs();
        bytes(bytes((x.0).0, &x.1[..]), x.2.as_bytes())
    }
    fn alter(self: Pin<&mut Self>, by: u64) {
        let x = self.muts();
        x.0.get_mut().0 ^= by;
        for b in x.1.mut_slice() {
            *b = b.wrapping_add(by as u8);
        }
        x.2.mut_slice().make_ascii_uppercase();
    }
    fn alter_apart(self: Pin<&mut Self>, by: u64) {
        let x = self.muts();
        std::thread::scope(|s| {
            s.spawn(move || x.0.get_mut().0 ^= by);
            s.spawn(move || x.2.mut_slice().make_ascii_uppercase());
            for b in x.1.mut_slice() {
                *b = b.wrapping_add(by as u8);
            }
        });
    }
    fn twin(&self) -> Option<VBox<Self>> {
        Some(VBox::new(self.vclone()))
    }
}
impl Work for Shared {
    const NAME: &'static str = "struct Shared";
    fn mk(r: &mut Rng) -> VBox<Self> {
        let n = r.below(9) as u8;
        let t = text(r);
        let (a, b, tag) = (r.u64(), r.u64(), r.u64() as u32);
        VBox::new(shared::Init {
            n,
            tag,
            name: Str::try_copy(&t).unwrap(),
            data: FillSequentially(move |i| mix(a, i as u64)),
            half: FillSequentially(move |i| mix(b, i as u64) as u8),
            spare: (tag >> 8) as u8,
            rest: FillSequentially(move |i| mix(b, i as u64 + 77) as u8),
        })
    }
    fn digest(&self) -> u64 {
        let x = self.refs();
        let h = mix(*x.n as u64, *x.tag as u64 + self.n as u64 + self.tag as u64);
        let h = bytes(mix(h, *x.spare as u64), x.rest);
        let h = bytes(h, x.name.as_bytes());
        let h = x.data.iter().fold(h, |h, v| mix(h, *v));
        bytes(h, x.half)
    }
    fn alter(mut self: Pin<&mut Self>, by: u64) {
        // Written anew, with another value where that keeps the lengths.
        let (n, spare) = (self.n, self.spare.wrapping_add(by as u8) & !3 | self.spare & 3);
        if self.as_mut().try_set_layout_controllers(shared::LayoutControllers { n, spare }).is_err() {
            panic!("equal lengths refused");
        }
        let x = self.muts();
        *x.tag = x.tag.wrapping_add(by as u32);
        for v in x.data {
            *v ^= by;
        }
        for v in x.half {
            *v = v.wrapping_add(1);
        }
        x.name.mut_slice().make_ascii_uppercase();
    }
    fn alter_apart(mut self: Pin<&mut Self>, by: u64) {
        let (n, spare) = (self.n, self.spare.wrapping_add(by as u8) & !3 | self.spare & 3);
        if self.as_mut().try_set_layout_controllers(shared::LayoutControllers { n, spare }).is_err() {
            panic!("equal lengths refused");
        }
        let x = self.muts();
        std::thread::scope(|s| {
            s.spawn(move || *x.tag = x.tag.wrapping_add(by as u32));
            let (n, data) = (x.n, x.data);
            s.spawn(move || {
                for i in 0..*n as usize {
                    data[i] ^= by;
                }
            });
            s.spawn(move || {
                for v in x.half {
                    *v = v.wrapping_add(1);
                }
            });
            assert!(*x.n == *n && *x.spare == spare);
            x.name.mut_slice().make_ascii_uppercase();
        });
    }
    fn twin(&self) -> Option<VBox<Self>> {
        let x = self.refs();
        Some(VBox::new(shared::Init {
            n: *x.n,
            spare: *x.spare,
            tag: *x.tag,
            name: x.name.vcopy(),
            data: CloneFrom(x.data),
            half: CopyFrom(x.half),
            rest: CopyFrom(x.rest),
        }))
    }
}
impl Work for SharedText {
    const NAME: &'static str = "newtype SharedText";
    fn mk(r: &mut Rng) -> VBox<Self> {
        let t = text(r);
        VBox::new(SharedTextInit(tup2::Init(FixedLen(r.u64() as u32), Str::copy(&t))))
    }
    fn digest(&self) -> u64 {
        let x = self.inner().refs();
        bytes((x.0).0 as u64, x.1.as_bytes())
    }
    fn alter(self: Pin<&mut Self>, by: u64) {
        let x = self.inner_mut().muts();
        x.0.get_mut().0 ^= by as u32;
        x.1.mut_slice().make_ascii_uppercase();
    }
    fn alter_apart(self: Pin<&mut Self>, by: u64) {
        let x = self.inner_mut().muts();
        std::thread::scope(|s| {
            s.spawn(move || x.0.get_mut().0 ^= by as u32);
            x.1.mut_slice().make_ascii_uppercase();
        });
    }
    fn twin(&self) -> Option<VBox<Self>> {
        Some(VBox::new(SharedTextInit(self.inner().vcopy())))
    }
}

fn pause(env: &Env, r: &mut Rng) {
    if r.chance(1, 3) {
        std::thread::yield_now();
    } else if !env.miri {
        for _ in 0..r.below(200) {
            std::hint::spin_loop();
        }
    }
}
/// What one thread does with containers of its own, as a number.
fn own_work<T: Work>(env: &Env, seed: u64) -> u64 {
    let mut r = Rng::new(seed);
    let mut h = seed;
    let bump = Bump::new();
    let mut q: Seq<T> = Seq::new();
    let mut c: Seq<T, varlen::seq::CheckedIndexing> = Seq::new();
    let mut boxes: Vec<VBox<T>> = Vec::new();
    let mut arena: Vec<Owned<'_, T>> = Vec::new();
    let steps = if env.miri { 7 } else { 40 };
    for i in 0..steps {
        match r.below(9) {
            0 => boxes.push(T::mk(&mut r)),
            1 => q.push(T::mk(&mut r)),
            2 => {
                let o = c.offset();
                c.push(T::mk(&mut r));
                h = mix(h, c.is_offset_valid(o) as u64);
                h = mix(h, c.from_offset(o).digest());
                h = mix(h, c.is_offset_valid(c.offset()) as u64);
            }
            3 => {
                if let Some(b) = boxes.pop() {
                    c.push(b)
                }
            }
            4 => arena.push(Owned::new_in(T::mk(&mut r), &bump)),
            5 => {
                for p in q.iter_mut() {
                    p.alter(i as u64)
                }
                for p in c.iter_mut() {
                    p.alter(i as u64 + 1)
                }
                for p in &mut arena {
                    p.as_mut().alter(3)
                }
            }
            6 => {
                for o in q.take_elems().collect::<Vec<_>>() {
                    if r.chance(1, 2) {
                        boxes.push(VBox::new(o))
                    }
                }
            }
            7 => {
                if let Some(o) = arena.pop() {
                    boxes.push(VBox::new(o));
                }
            }
            _ => {
                if let Some(b) = c.iter().next().and_then(|x| x.twin()) {
                    q.push(b)
                }
            }
        }
        pause(env, &mut Rng::new(h));
        for x in q.iter().chain(c.iter()) {
            h = mix(h, x.digest());
        }
        for x in &boxes {
            h = mix(h, x.digest());
        }
        for x in &arena {
            h = mix(h, x.digest());
        }
        for x in c.iter() {
            h = mix(h, c.offset_of(x) as u64);
        }
    }
    mix(h, (q.len() * 1000 + c.len()) as u64)
}
/// Reads all objects in an order of its own.
fn read_all<T: Work>(env: &Env, objs: &[&T], seed: u64) -> Vec<u64> {
    let mut r = Rng::new(seed);
    let mut out = vec![0; objs.len()];
    let mut order: Vec<usize> = (0..objs.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    let mut mine: Seq<T> = Seq::new();
    for i in order {
        out[i] = objs[i].digest();
        if r.chance(1, 3) {
            pause(env, &mut r);
        }
        if r.chance(1, 4) {
            // A copy belongs to this thread alone.
            if let Some(mut b) = objs[i].twin() {
                if b.digest() != out[i] {
                    out[i] = 0;
                }
                b.as_mut().alter(7);
                mine.push(b);
            }
            if objs[i].digest() != out[i] {
                out[i] = 1;
            }
        }
    }
    out
}
fn threads_case<T: Work>(env: &Env, r: &mut Rng) {
    let t25 = ["C25"];
    let k = if env.miri { 2 } else { r.range(2, 5) };
    let n = if env.miri { r.range(1, 4) } else { r.range(1, 20) };
    let bump = Bump::new();
    let mut boxes: Vec<VBox<T>> = Vec::new();
    let mut q: Seq<T> = Seq::new();
    let mut c: Seq<T, varlen::seq::CheckedIndexing> = Seq::new();
    let mut arena: Vec<Owned<'_, T>> = Vec::new();
    for _ in 0..n {
        match r.below(4) {
            0 => boxes.push(T::mk(r)),
            1 => q.push(T::mk(r)),
            2 => c.push(T::mk(r)),
            _ => arena.push(Owned::new_in(T::mk(r), &bump)),
        }
    }
    let mut total = 0u64;
    for round in 0..2 {
        // Shared reads.
        let objs: Vec<&T> = boxes.iter().map(|b| &**b).chain(q.iter()).chain(c.iter()).chain(arena.iter().map(|o| &**o)).collect();
        let want: Vec<u64> = objs.iter().map(|o| o.digest()).collect();
        let seeds: Vec<u64> = (0..k).map(|_| r.u64()).collect();
        let got: Vec<Option<Vec<u64>>> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds.iter().map(|x| {
                let objs = &objs[..];
                s.spawn(move || read_all(env, objs, *x))
            }).collect();
            hs.into_iter().map(|h| h.join().ok()).collect()
        });
        for g in &got {
            vassert!(t25, g.as_ref() == Some(&want), "{}: a thread reads {:x?} instead of {:x?}", T::NAME, g, want);
        }
        total += (objs.len() * k) as u64;
        ctx::add("threads.shared_reads", (objs.len() * k) as u64);
        drop(objs);
        if ctx::poisoned() {
            return;
        }
        // Disjoint exclusive references, dealt out to the threads.
        let want: Vec<u64> = {
            let mut tw: Vec<Option<VBox<T>>> =
                boxes.iter().map(|b| b.twin()).chain(q.iter().map(|x| x.twin())).chain(c.iter().map(|x| x.twin())).chain(arena.iter().map(|o| o.twin())).collect();
            tw.iter_mut()
                .enumerate()
                .map(|(i, b)| match b {
                    Some(b) => {
                        b.as_mut().alter(i as u64 + 5);
                        if i >= boxes.len() && i < boxes.len() + q.len() + c.len() {
                            b.as_mut().alter(i as u64 + 9);
                        }
                        b.digest()
                    }
                    None => 0,
                })
                .collect()
        };
        let mut muts: Vec<Pin<&mut T>> = Vec::new();
        for b in &mut boxes {
            muts.push(b.as_mut())
        }
        muts.extend(q.iter_mut());
        muts.extend(c.iter_mut());
        for o in &mut arena {
            muts.push(o.as_mut())
        }
        let mut hands: Vec<Vec<(usize, Pin<&mut T>)>> = (0..k).map(|_| Vec::new()).collect();
        for (i, m) in muts.into_iter().enumerate() {
            hands[(i + round) % k].push((i, m));
        }
        let ended: Vec<bool> = std::thread::scope(|s| {
            let hs: Vec<_> = hands
                .into_iter()
                .map(|h| {
                    s.spawn(move || {
                        for (i, m) in h {
                            m.alter(i as u64 + 5)
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().is_ok()).collect()
        });
        vassert!(t25, ended.iter().all(|x| *x), "{}: a mutating thread panicked", T::NAME);
        // Once more, while the iteration that hands out the references goes on.
        let at_once = if env.miri { 2 } else { 4 };
        let altered: Vec<usize> = {
            let mut done = Vec::new();
            let mut all = |it: &mut dyn Iterator<Item = Pin<&mut T>>, first: usize| {
                let mut i = first;
                let mut more = true;
                while more {
                    std::thread::scope(|s| {
                        for _ in 0..at_once {
                            match it.next() {
                                Some(m) => {
                                    done.push(i);
                                    s.spawn(move || if i % 2 == 0 { m.alter(i as u64 + 9) } else { m.alter_apart(i as u64 + 9) });
                                    i += 1;
                                }
                                None => more = false,
                            }
                        }
                    });
                }
            };
            all(&mut q.iter_mut(), boxes.len());
            all(&mut c.iter_mut(), boxes.len() + q.len());
            done
        };
        ctx::add("threads.altered_while_iterating", altered.len() as u64);
        let got: Vec<u64> = boxes.iter().map(|b| b.digest()).chain(q.iter().map(|x| x.digest())).chain(c.iter().map(|x| x.digest())).chain(arena.iter().map(|o| o.digest())).collect();
        vassert!(["C25", "C16"], got == want, "{}: disjoint mutations by {} threads give {:x?} instead of {:x?}", T::NAME, k, got, want);
        ctx::add("threads.disjoint_mutations", got.len() as u64);
    }
    // Containers of their own.
    let seeds: Vec<u64> = (0..k).map(|_| r.u64()).collect();
    let want: Vec<u64> = seeds.iter().map(|x| own_work::<T>(env, *x)).collect();
    let got: Vec<Option<u64>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds.iter().map(|x| s.spawn(move || own_work::<T>(env, *x))).collect();
        hs.into_iter().map(|h| h.join().ok()).collect()
    });
    for (w, g) in want.iter().zip(&got) {
        vassert!(t25, *g == Some(*w), "{}: work with containers of its own gives {:x?} on a thread and {:x} alone", T::NAME, g, w);
    }
    ctx::add("threads.own_containers", k as u64);
    ctx::add("threads.threads", 5 * k as u64);
    ctx::distinct(mix(total, want.iter().fold(T::NAME.len() as u64, |h, x| mix(h, *x))));
    ctx::sample(|| format!("{}: {} threads, {} objects", T::NAME, k, n));
}
/// Contents with interior mutability that threads may share.
fn counters_case(env: &Env, r: &mut Rng) {
    let k = if env.miri { 2 } else { r.range(2, 5) };
    let per = if env.miri { 6 } else { 300 };
    let n = r.range(1, 12);
    let mut q: Seq<Counters> = Seq::new();
    let elems = if env.miri { 2 } else { r.range(1, 6) };
    for _ in 0..elems {
        q.push(counters::Init {
            n: n as u16,
            total: AtomicU64::new(0),
            each: FillSequentially(|_| AtomicU64::new(0)),
        });
    }
    let tops: VBox<Array<AtomicUsize, u32>> = VBox::new(varlen::array::SizedInit(n as u32, FillSequentially(|_| AtomicUsize::new(0))));
    let objs: Vec<&Counters> = q.iter().collect();
    let top: &Array<AtomicUsize, u32> = &tops;
    let seeds: Vec<u64> = (0..k).map(|_| r.u64()).collect();
    std::thread::scope(|s| {
        for x in &seeds {
            let objs = &objs[..];
            s.spawn(move || {
                let mut r = Rng::new(*x);
                for _ in 0..per {
                    let o = objs[r.below(objs.len())];
                    let f = o.refs();
                    let i = r.below(f.each.len());
                    f.each[i].fetch_add(1, Ordering::Relaxed);
                    f.total.fetch_add(1, Ordering::Relaxed);
                    top[i].fetch_add(1, Ordering::Relaxed);
                }
            });
        }
    });
    let mut sum = 0;
    for o in &objs {
        let f = o.refs();
        let t = f.total.load(Ordering::Relaxed);
        let e: u64 = f.each.iter().map(|x| x.load(Ordering::Relaxed)).sum();
        vassert!(["C25"], t == e, "counters: {} in all, {} one by one", t, e);
        sum += t;
    }
    let tt: usize = top.iter().map(|x| x.load(Ordering::Relaxed)).sum();
    vassert!(["C25"], sum == (k * per) as u64 && tt == k * per, "counters: {} and {} of {} increments", sum, tt, k * per);
    ctx::add("threads.increments", (k * per) as u64);
    ctx::distinct(mix(n as u64 * 100 + elems as u64, seeds[0]));
}
pub fn d_threads(env: &Env, name: &str, no: u64) {
    let k = (no % 6) as usize;
    let shape = [Str::NAME, "Array<u16,u8>", "Tup3", "struct Shared", "newtype", "counters"][k];
    ctx::case(name, no, shape, |r| match k {
        0 => threads_case::<Str>(env, r),
        1 => threads_case::<Array<u16, u8>>(env, r),
        2 => threads_case::<Tup3<FixedLen<u64>, Array<u8>, Str<u8>>>(env, r),
        3 => threads_case::<Shared>(env, r),
        4 => threads_case::<SharedText>(env, r),
        _ => counters_case(env, r),
    })
}
