//! Object-safe views of boxes, owned handles, sequences and iterators over one element type. These are
//! thin: each method makes the library calls and returns what was observed; judging is done by the
//! (non-generic) engine.
use crate::ctx;
use crate::galloc::{lib, user};
use crate::spec::*;
use std::any::Any;
use std::pin::Pin;
use varlen::prelude::*;
use varlen::seq::{CheckedIndexing, UncheckedIndexing};
use varlen::Layout as _;

/// No sequence of the histories is that long.
pub const ENDLESS: usize = 100_000;

pub struct Seen {
    pub val: Val,
    pub obs: Obs,
    pub addr: usize,
    pub size: usize,
}
pub fn see<T: Spec>(t: &T) -> Seen {
    let mut obs = Obs::default();
    let val = t.read(&mut obs);
    Seen { val, obs, addr: t as *const T as usize, size: t.calculate_layout().size() }
}

/// Any exclusively held object.
pub trait ObjD {
    fn see(&self) -> Seen;
    fn mutate(&mut self, v: &mut Val, g: &mut Gen);
    fn ctl(&mut self, v: &mut Val, g: &mut Gen) -> Ctl;
}
pub trait BoxD: ObjD {
    /// `VBox::clone`, if the type can be cloned.
    fn bclone(&self) -> Option<Box<dyn BoxD>>;
    /// `VBox::clone_from`, if the type can be cloned.
    fn bclone_from(&mut self, from: &dyn BoxD) -> bool;
    fn as_any(&self) -> &dyn Any;
    /// Clone through `vclone`/`vcopy` into a new box.
    fn vclone(&self, copy: bool) -> Option<Box<dyn BoxD>>;
    fn raw_trip(self: Box<Self>, between: &mut dyn FnMut(usize)) -> Box<dyn BoxD>;
    fn into_seq(self: Box<Self>, s: &mut dyn SeqD);
    fn into_box(self: Box<Self>) -> Box<dyn BoxD>;
    fn into_arena<'b>(self: Box<Self>, b: &'b bumpalo::Bump) -> Box<dyn OwnD<'b> + 'b>;
    fn clone_into_seq(&self, s: &mut dyn SeqD, copy: bool) -> bool;
    fn clone_into_arena<'b>(&self, b: &'b bumpalo::Bump, copy: bool) -> Option<Box<dyn OwnD<'b> + 'b>>;
    fn raw_leak(self: Box<Self>) -> (usize, Box<dyn FnOnce() -> Box<dyn BoxD>>);
}
pub trait OwnD<'a>: ObjD {
    fn into_seq(self: Box<Self>, s: &mut dyn SeqD);
    fn into_box(self: Box<Self>) -> Box<dyn BoxD>;
    fn into_arena<'b>(self: Box<Self>, b: &'b bumpalo::Bump) -> Box<dyn OwnD<'b> + 'b>;
    fn raw_trip(self: Box<Self>, between: &mut dyn FnMut(usize)) -> Box<dyn OwnD<'a> + 'a>;
    fn leak(self: Box<Self>) -> Box<dyn ObjD + 'a>;
    fn clone_into_box(&self, copy: bool) -> Option<Box<dyn BoxD>>;
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IterHow {
    All,
    Limited(usize),
    /// Advance this many, then limit.
    AdvanceLimited(usize, usize),
}
/// A step of a client that uses an iterator in some way other than calling `next` until it ends.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Next,
    Nth(usize),
    /// The first so many of `by_ref`.
    TakeRef(usize),
    Position(usize),
    // The others use it up.
    Last,
    Count,
    Fold,
    ForEach,
    Collect,
    Skip(usize),
    StepBy(usize),
    /// Through `zip` and `peekable`.
    Zip,
    Drop,
}
/// Index (by the meaning of the steps) and observation of each element delivered, and what went wrong.
pub struct ProtoSeen {
    pub elems: Vec<(usize, Seen)>,
    pub bad: Option<String>,
}
fn protocol<X, It: ExactSizeIterator<Item = X>>(it: It, n: usize, steps: &[Step], see: &mut dyn FnMut(X) -> Seen) -> ProtoSeen {
    let mut elems: Vec<(usize, Seen)> = Vec::new();
    let mut bad = None;
    let mut p = 0;
    let mut it = Some(it);
    let mut seen: Vec<Seen> = Vec::new();
    for s in steps {
        let Some(i) = it.as_mut() else { break };
        let h = lib(|| (i.size_hint(), i.len()));
        if h != ((n - p, Some(n - p)), n - p) {
            bad = Some(format!("before {:?}: reports {:?} with {} elements left", s, h, n - p));
            break;
        }
        seen.clear();
        let left = n - p;
        // Indices that the step must deliver, and where it leaves the iterator.
        let (want, next): (Vec<usize>, usize) = match *s {
            Step::Next => ((p..n).take(1).collect(), (p + 1).min(n)),
            Step::Nth(k) => ((p..n).skip(k).take(1).collect(), p.saturating_add(k).saturating_add(1).min(n)),
            Step::TakeRef(k) => ((p..n).take(k).collect(), p.saturating_add(k).min(n)),
            Step::Position(k) => ((p..n).take(k + 1).collect(), (p + k + 1).min(n)),
            Step::Last => ((p..n).last().into_iter().collect(), n),
            Step::Count | Step::Drop => (vec![], n),
            Step::Fold | Step::ForEach | Step::Collect | Step::Zip => ((p..n).collect(), n),
            Step::Skip(k) => ((p..n).skip(k).collect(), n),
            Step::StepBy(k) => ((p..n).step_by(k).collect(), n),
            
        };
        let mut put = |x: X, seen: &mut Vec<Seen>| user(|| if seen.len() <= ENDLESS { seen.push(see(x)) });
        let mut cnt = None;
        match *s {
            Step::Next => {
                if let Some(x) = lib(|| i.next()) {
                    put(x, &mut seen)
                }
            }
            Step::Nth(k) => {
                if let Some(x) = lib(|| i.nth(k)) {
                    put(x, &mut seen)
                }
            }
            Step::TakeRef(k) => lib(|| {
                for x in i.by_ref().take(k) {
                    put(x, &mut seen)
                }
            }),
            Step::Position(k) => {
                let r = lib(|| {
                    let mut c = 0;
                    i.position(|x| {
                        put(x, &mut seen);
                        c += 1;
                        c == k + 1
                    })
                });
                if r != if k < left { Some(k) } else { None } {
                    bad = Some(format!("{:?} with {} elements left gives {:?}", s, left, r));
                }
            }
            _ => {
                let i = it.take().unwrap();
                match *s {
                    Step::Last => {
                        if let Some(x) = lib(|| i.last()) {
                            put(x, &mut seen)
                        }
                    }
                    Step::Count => cnt = Some(lib(|| i.count())),
                    Step::Fold => {
                        let c = lib(|| {
                            i.fold(0usize, |c, x| {
                                put(x, &mut seen);
                                c + 1
                            })
                        });
                        if c != left {
                            bad = Some(format!("folding visits {} of {} elements", c, left));
                        }
                    }
                    Step::ForEach => lib(|| i.for_each(|x| put(x, &mut seen))),
                    Step::Collect => {
                        let v: Vec<X> = lib(|| i.collect());
                        for x in v {
                            put(x, &mut seen)
                        }
                    }
                    Step::Skip(k) => lib(|| {
                        for x in i.skip(k) {
                            put(x, &mut seen)
                        }
                    }),
                    Step::StepBy(k) => lib(|| i.step_by(k).for_each(|x| put(x, &mut seen))),
                    Step::Zip => lib(|| {
                        for x in i.zip(0usize..).map(|x| x.0).peekable() {
                            put(x, &mut seen)
                        }
                    }),
                    _ => lib(|| drop(i)),
                }
            }
        }
        if let Some(c) = cnt {
            if c != left {
                bad = Some(format!("count gives {} of {} elements", c, left));
            }
        }
        if seen.len() != want.len() {
            bad = Some(format!("{:?} at element {} of {} delivers {} elements instead of {}", s, p, n, seen.len(), want.len()));
        }
        if bad.is_some() {
            break;
        }
        elems.extend(want.into_iter().zip(seen.drain(..)));
        p = next;
    }
    lib(|| drop(it));
    ProtoSeen { elems, bad }
}
pub struct IterSeen {
    pub hints: Vec<(usize, Option<usize>, usize)>,
    pub elems: Vec<Seen>,
    pub count: usize,
    pub fused: bool,
}
pub trait SeqD {
    fn push(&mut self, v: &Val, g: &mut Gen, before: &mut dyn FnMut());
    fn push_huge(&mut self, g: &mut Gen) -> Option<Result<(), ctx::Caught>>;
    fn extend(&mut self, vs: &[Val], g: &mut Gen, hint: usize, before: &mut dyn FnMut());
    fn len(&self) -> usize;
    fn offset(&self) -> usize;
    fn capacity(&self) -> usize;
    fn iter(&self, how: IterHow) -> IterSeen;
    fn iter_mut(&mut self, how: IterHow, f: &mut dyn FnMut(usize, &mut dyn ObjD)) -> (Vec<(usize, Option<usize>, usize)>, usize);
    /// All mutable references of one iteration held at the same time.
    fn all_mut(&mut self, f: &mut dyn FnMut(Vec<Box<dyn ObjD + '_>>));
    fn at(&self, off: usize) -> Seen;
    fn at_mut(&mut self, off: usize, f: &mut dyn FnMut(&mut dyn ObjD));
    /// Offsets computed from references to all elements.
    fn offsets_of(&self) -> Vec<usize>;
    /// `offset_of` for an object of the same type elsewhere; `None` if the argument has another type.
    fn offset_of_foreign(&self, other: &dyn SeqD, i: usize) -> Option<Result<usize, ctx::Caught>>;
    fn offset_of_boxed(&self, v: &Val, g: &mut Gen) -> Result<usize, ctx::Caught>;
    fn indexed(&self) -> bool;
    fn valid(&self, off: usize) -> bool;
    fn at_checked(&self, off: usize) -> Result<Seen, ctx::Caught>;
    fn at_checked_mut(&mut self, off: usize, f: &mut dyn FnMut(&mut dyn ObjD)) -> Result<(), ctx::Caught>;
    fn take(&mut self, f: &mut dyn FnMut(&mut dyn TakeD));
    /// `mem::forget` of the iterator after `k` elements, which are handed to `f`.
    fn take_forget(&mut self, k: usize, f: &mut dyn FnMut(&mut dyn TakeD));
    /// Takes and drops `k`, then counts (and drops) the rest.
    fn take_count(&mut self, k: usize) -> usize;
    /// Uses the iterator of a kind (0: shared, 1: mutable, 2: owned) on a sequence of `n` elements.
    fn protocol(&mut self, kind: usize, n: usize, steps: &[Step]) -> ProtoSeen;
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn clone_elem_into(&self, i: usize, copy: bool, dst: &mut dyn SeqD) -> bool;
}
/// An iterator over owned elements.
pub trait TakeD {
    fn next(&mut self) -> bool;
    fn hint(&self) -> (usize, Option<usize>, usize);
    /// What to do with the element that `next` produced.
    fn see(&self) -> Option<Seen>;
    fn mutate(&mut self, v: &mut Val, g: &mut Gen);
    fn drop_it(&mut self);
    fn leak_it(&mut self) -> Option<Seen>;
    fn raw_it(&mut self, between: &mut dyn FnMut(usize));
    fn to_box(&mut self) -> Box<dyn BoxD>;
    fn to_seq(&mut self, s: &mut dyn SeqD);
    fn to_arena<'b>(&mut self, b: &'b bumpalo::Bump) -> Box<dyn OwnD<'b> + 'b>;
    fn clone_to_box(&mut self) -> Option<Box<dyn BoxD>>;
    fn hold(&mut self);
    fn held(&self) -> Vec<Seen>;
}

pub struct BoxI<T: Spec> {
    pub b: VBox<T>,
    pub caps: Caps<T>,
}
pub struct OwnI<'a, T: Spec> {
    pub o: Owned<'a, T>,
    pub caps: Caps<T>,
}
pub struct PinI<'a, T: Spec>(pub Pin<&'a mut T>);

impl<T: Spec> ObjD for BoxI<T> {
    fn see(&self) -> Seen {
        see::<T>(&self.b)
    }
    fn mutate(&mut self, v: &mut Val, g: &mut Gen) {
        self.b.as_mut().mutate(v, g)
    }
    fn ctl(&mut self, v: &mut Val, g: &mut Gen) -> Ctl {
        self.b.as_mut().ctl(v, g)
    }
}
impl<'a, T: Spec> ObjD for OwnI<'a, T> {
    fn see(&self) -> Seen {
        see::<T>(&self.o)
    }
    fn mutate(&mut self, v: &mut Val, g: &mut Gen) {
        self.o.as_mut().mutate(v, g)
    }
    fn ctl(&mut self, v: &mut Val, g: &mut Gen) -> Ctl {
        self.o.as_mut().ctl(v, g)
    }
}
impl<'a, T: Spec> ObjD for PinI<'a, T> {
    fn see(&self) -> Seen {
        see::<T>(self.0.as_ref().get_ref())
    }
    fn mutate(&mut self, v: &mut Val, g: &mut Gen) {
        self.0.as_mut().mutate(v, g)
    }
    fn ctl(&mut self, v: &mut Val, g: &mut Gen) -> Ctl {
        self.0.as_mut().ctl(v, g)
    }
}
pub fn clone_dyn<'a, T: Spec>(t: &'a T, caps: &Caps<T>, copy: bool) -> Option<Dyn<'a, T>> {
    let f = if copy { caps.vcopy? } else { caps.vclone? };
    Some(user(|| f(t)).kind(if copy { "vcopy" } else { "vclone" }))
}
fn push_to<T: Spec>(s: &mut dyn SeqD, i: impl varlen::Initializer<T>) {
    let a = s.as_any_mut();
    if let Some(s) = a.downcast_mut::<SeqI<T, UncheckedIndexing>>() {
        lib(|| s.s.push(i))
    } else if let Some(s) = a.downcast_mut::<SeqI<T, CheckedIndexing>>() {
        lib(|| s.s.push(i))
    } else {
        panic!("harness: push into a sequence of another type")
    }
}
fn arena_new<'b, T: Spec>(i: impl varlen::Initializer<T>, b: &'b bumpalo::Bump) -> Owned<'b, T> {
    ARENA.with(|x| x.set(true));
    let r = ctx::catch(|| lib(|| Owned::new_in(i, b)));
    ARENA.with(|x| x.set(false));
    match r {
        Ok(o) => o,
        Err(ctx::Caught::Planned) => std::panic::panic_any(ctx::Planned),
        Err(ctx::Caught::Panic(m)) => panic!("{}", m),
    }
}

impl<T: Spec> BoxD for BoxI<T> {
    fn bclone(&self) -> Option<Box<dyn BoxD>> {
        let f = self.caps.bclone?;
        let b = lib(|| f(None, &self.b))?;
        Some(Box::new(BoxI { b, caps: self.caps }))
    }
    fn bclone_from(&mut self, from: &dyn BoxD) -> bool {
        let Some(f) = self.caps.bclone else { return false };
        let from = from.as_any().downcast_ref::<BoxI<T>>().expect("harness: another type");
        lib(|| f(Some(&mut self.b), &from.b));
        true
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn vclone(&self, copy: bool) -> Option<Box<dyn BoxD>> {
        let d = clone_dyn::<T>(&self.b, &self.caps, copy)?;
        let b = lib(|| VBox::new(d));
        Some(Box::new(BoxI { b, caps: self.caps }))
    }
    fn raw_trip(self: Box<Self>, between: &mut dyn FnMut(usize)) -> Box<dyn BoxD> {
        let caps = self.caps;
        let p = lib(|| unsafe { self.b.into_raw() });
        between(p as usize);
        let b = lib(|| unsafe { VBox::from_raw(p) });
        Box::new(BoxI { b, caps })
    }
    fn raw_leak(self: Box<Self>) -> (usize, Box<dyn FnOnce() -> Box<dyn BoxD>>) {
        let caps = self.caps;
        let p = lib(|| unsafe { self.b.into_raw() });
        (
            p as usize,
            Box::new(move || {
                let b = lib(|| unsafe { VBox::from_raw(p) });
                Box::new(BoxI { b, caps })
            }),
        )
    }
    fn into_seq(self: Box<Self>, s: &mut dyn SeqD) {
        push_to::<T>(s, dyn_of(self.b).kind("vbox"))
    }
    fn into_box(self: Box<Self>) -> Box<dyn BoxD> {
        let caps = self.caps;
        let d = dyn_of::<T, _>(self.b).kind("vbox");
        let b = lib(|| VBox::new(d));
        Box::new(BoxI { b, caps })
    }
    fn into_arena<'b>(self: Box<Self>, b: &'b bumpalo::Bump) -> Box<dyn OwnD<'b> + 'b> {
        let caps = self.caps;
        let o = arena_new::<T>(dyn_of(self.b).kind("vbox"), b);
        Box::new(OwnI { o, caps })
    }
    fn clone_into_seq(&self, s: &mut dyn SeqD, copy: bool) -> bool {
        match clone_dyn::<T>(&self.b, &self.caps, copy) {
            Some(d) => {
                push_to::<T>(s, d);
                true
            }
            None => false,
        }
    }
    fn clone_into_arena<'b>(&self, b: &'b bumpalo::Bump, copy: bool) -> Option<Box<dyn OwnD<'b> + 'b>> {
        let d = clone_dyn::<T>(&self.b, &self.caps, copy)?;
        let o = arena_new::<T>(d, b);
        Some(Box::new(OwnI { o, caps: self.caps }))
    }
}
impl<'a, T: Spec> OwnD<'a> for OwnI<'a, T> {
    fn into_seq(self: Box<Self>, s: &mut dyn SeqD) {
        push_to::<T>(s, dyn_of(self.o).kind("owned"))
    }
    fn into_box(self: Box<Self>) -> Box<dyn BoxD> {
        let caps = self.caps;
        let d = dyn_of::<T, _>(self.o).kind("owned");
        let b = lib(|| VBox::new(d));
        Box::new(BoxI { b, caps })
    }
    fn into_arena<'b>(self: Box<Self>, b: &'b bumpalo::Bump) -> Box<dyn OwnD<'b> + 'b> {
        let caps = self.caps;
        let o = arena_new::<T>(dyn_of(self.o).kind("owned"), b);
        Box::new(OwnI { o, caps })
    }
    fn raw_trip(self: Box<Self>, between: &mut dyn FnMut(usize)) -> Box<dyn OwnD<'a> + 'a> {
        let caps = self.caps;
        let p = lib(|| unsafe { self.o.into_raw() });
        between(p.as_ptr() as usize);
        let o = lib(|| unsafe { Owned::from_raw(p) });
        Box::new(OwnI { o, caps })
    }
    fn leak(self: Box<Self>) -> Box<dyn ObjD + 'a> {
        let p = lib(|| self.o.leak());
        Box::new(PinI(p))
    }
    fn clone_into_box(&self, copy: bool) -> Option<Box<dyn BoxD>> {
        let d = clone_dyn::<T>(&self.o, &self.caps, copy)?;
        let b = lib(|| VBox::new(d));
        Some(Box::new(BoxI { b, caps: self.caps }))
    }
}

/// Indexing-specific operations.
pub trait IdxOps<T: Spec>: Indexing + Sized + 'static {
    const INDEXED: bool;
    fn valid(s: &Seq<T, Self>, off: usize) -> bool;
    fn get(s: &Seq<T, Self>, off: usize) -> &T;
    fn get_mut(s: &mut Seq<T, Self>, off: usize) -> Pin<&mut T>;
    fn new(r: usize) -> Seq<T, Self>;
}
impl<T: Spec> IdxOps<T> for UncheckedIndexing {
    const INDEXED: bool = false;
    fn valid(_: &Seq<T, Self>, _: usize) -> bool {
        unreachable!()
    }
    fn get(_: &Seq<T, Self>, _: usize) -> &T {
        unreachable!()
    }
    fn get_mut(_: &mut Seq<T, Self>, _: usize) -> Pin<&mut T> {
        unreachable!()
    }
    fn new(r: usize) -> Seq<T, Self> {
        match r % 3 {
            0 => Seq::new(),
            1 => Seq::new_minimal(),
            _ => seq![],
        }
    }
}
impl<T: Spec> IdxOps<T> for CheckedIndexing {
    const INDEXED: bool = true;
    fn valid(s: &Seq<T, Self>, off: usize) -> bool {
        s.is_offset_valid(off)
    }
    fn get(s: &Seq<T, Self>, off: usize) -> &T {
        s.from_offset(off)
    }
    fn get_mut(s: &mut Seq<T, Self>, off: usize) -> Pin<&mut T> {
        s.from_offset_mut(off)
    }
    fn new(r: usize) -> Seq<T, Self> {
        match r % 3 {
            0 => Seq::new(),
            1 => Seq::new_indexable(),
            _ => seq![],
        }
    }
}

pub struct SeqI<T: Spec, I: IdxOps<T>> {
    pub s: Seq<T, I>,
    pub caps: Caps<T>,
}

fn start_mut<T: Spec, I: IdxOps<T>>(s: &mut Seq<T, I>, how: IterHow) -> varlen::seq::IterMut<'_, T> {
    let mut it = s.iter_mut();
    match how {
        IterHow::All => it,
        IterHow::Limited(n) => it.limited_to(n),
        IterHow::AdvanceLimited(k, n) => {
            for _ in 0..k {
                it.next();
            }
            it.limited_to(n)
        }
    }
}

struct HintIter<It> {
    it: It,
    lo: usize,
}
impl<It: Iterator> Iterator for HintIter<It> {
    type Item = It::Item;
    fn next(&mut self) -> Option<It::Item> {
        user(|| crate::tok::tick(crate::tok::ITER));
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, None)
    }
}

impl<T: Spec, I: IdxOps<T>> SeqD for SeqI<T, I> {
    fn push(&mut self, v: &Val, g: &mut Gen, before: &mut dyn FnMut()) {
        let d = make_with::<T>(v, g, self.caps);
        before();
        lib(|| self.s.push(d))
    }
    fn push_huge(&mut self, g: &mut Gen) -> Option<Result<(), ctx::Caught>> {
        T::huge(g).map(|h| ctx::catch(|| lib(|| self.s.push(h))))
    }
    fn extend(&mut self, vs: &[Val], g: &mut Gen, hint: usize, before: &mut dyn FnMut()) {
        let ds: Vec<Dyn<'static, T>> = vs.iter().map(|v| make_with::<T>(v, g, self.caps)).collect();
        before();
        // A size hint that may be wrong must not matter.
        lib(|| self.s.extend(HintIter { it: ds.into_iter(), lo: hint }))
    }
    fn len(&self) -> usize {
        self.s.len()
    }
    fn offset(&self) -> usize {
        self.s.offset()
    }
    fn capacity(&self) -> usize {
        self.s.capacity_in_offsets()
    }
    fn iter(&self, how: IterHow) -> IterSeen {
        let mut elems = Vec::new();
        let mut hints = Vec::new();
        let mut it = lib(|| self.s.iter());
        match how {
            IterHow::All => {}
            IterHow::Limited(n) => it = lib(|| it.limited_to(n)),
            IterHow::AdvanceLimited(k, n) => {
                for _ in 0..k {
                    lib(|| it.next());
                }
                it = lib(|| it.limited_to(n));
            }
        }
        let count = lib(|| it.limited_to(usize::MAX).count());
        loop {
            let h = lib(|| it.size_hint());
            hints.push((h.0, h.1, lib(|| it.len())));
            match lib(|| it.next()) {
                Some(t) => elems.push(see(t)),
                None => break,
            }
            if elems.len() > ENDLESS {
                break;
            }
        }
        let fused = lib(|| it.next()).is_none();
        IterSeen { hints, elems, count, fused }
    }
    fn iter_mut(&mut self, how: IterHow, f: &mut dyn FnMut(usize, &mut dyn ObjD)) -> (Vec<(usize, Option<usize>, usize)>, usize) {
        let mut hints = Vec::new();
        let count = lib(|| start_mut(&mut self.s, how).count());
        let mut it = lib(|| start_mut(&mut self.s, how));
        let mut i = 0;
        loop {
            let h = lib(|| it.size_hint());
            hints.push((h.0, h.1, lib(|| it.len())));
            match lib(|| it.next()) {
                Some(t) => {
                    f(i, &mut PinI(t));
                    i += 1;
                }
                None => break,
            }
            if i > ENDLESS {
                break;
            }
        }
        (hints, count)
    }
    fn all_mut(&mut self, f: &mut dyn FnMut(Vec<Box<dyn ObjD + '_>>)) {
        let mut v: Vec<Box<dyn ObjD + '_>> = Vec::new();
        let mut it = lib(|| self.s.iter_mut());
        while let Some(p) = lib(|| it.next()) {
            v.push(Box::new(PinI(p)));
            if v.len() > ENDLESS {
                break;
            }
        }
        f(v)
    }
    fn at(&self, off: usize) -> Seen {
        see(lib(|| unsafe { self.s.from_offset_unchecked(off) }))
    }
    fn at_mut(&mut self, off: usize, f: &mut dyn FnMut(&mut dyn ObjD)) {
        let p = lib(|| unsafe { self.s.from_offset_unchecked_mut(off) });
        f(&mut PinI(p))
    }
    fn offsets_of(&self) -> Vec<usize> {
        self.s.iter().take(ENDLESS).map(|t| lib(|| self.s.offset_of(t))).collect()
    }
    fn offset_of_foreign(&self, other: &dyn SeqD, i: usize) -> Option<Result<usize, ctx::Caught>> {
        let a = other.as_any();
        let t: &T = if let Some(o) = a.downcast_ref::<SeqI<T, UncheckedIndexing>>() {
            o.s.iter().nth(i)?
        } else if let Some(o) = a.downcast_ref::<SeqI<T, CheckedIndexing>>() {
            o.s.iter().nth(i)?
        } else {
            return None;
        };
        Some(ctx::catch(|| self.s.offset_of(t)))
    }
    fn offset_of_boxed(&self, v: &Val, g: &mut Gen) -> Result<usize, ctx::Caught> {
        let d = T::init(v, g);
        let b = lib(|| VBox::new(d));
        ctx::catch(|| self.s.offset_of(&b))
    }
    fn indexed(&self) -> bool {
        I::INDEXED
    }
    fn valid(&self, off: usize) -> bool {
        lib(|| I::valid(&self.s, off))
    }
    fn at_checked(&self, off: usize) -> Result<Seen, ctx::Caught> {
        ctx::catch(|| see(lib(|| I::get(&self.s, off))))
    }
    fn at_checked_mut(&mut self, off: usize, f: &mut dyn FnMut(&mut dyn ObjD)) -> Result<(), ctx::Caught> {
        ctx::catch(|| f(&mut PinI(I::get_mut(&mut self.s, off))))
    }
    fn take(&mut self, f: &mut dyn FnMut(&mut dyn TakeD)) {
        let caps = self.caps;
        let it = lib(|| self.s.take_elems());
        let mut t = TakeI { it, cur: None, held: Vec::new(), caps };
        f(&mut t);
        t.cur = None;
        let TakeI { it, held, .. } = t;
        // Held elements may outlive the iterator.
        drop_lib(it);
        for h in held {
            drop_lib(h);
        }
    }
    fn take_forget(&mut self, k: usize, f: &mut dyn FnMut(&mut dyn TakeD)) {
        let caps = self.caps;
        let it = lib(|| self.s.take_elems());
        let mut t = TakeI { it, cur: None, held: Vec::new(), caps };
        for _ in 0..k {
            f(&mut t);
        }
        t.cur = None;
        let TakeI { it, held, .. } = t;
        std::mem::forget(it);
        drop(held);
    }
    fn take_count(&mut self, k: usize) -> usize {
        lib(|| {
            let mut it = self.s.take_elems();
            for _ in 0..k {
                it.next();
            }
            it.count()
        })
    }
    fn protocol(&mut self, kind: usize, n: usize, steps: &[Step]) -> ProtoSeen {
        match kind {
            0 => protocol(self.s.iter(), n, steps, &mut |t| see::<T>(t)),
            1 => protocol(self.s.iter_mut(), n, steps, &mut |t| see::<T>(t.as_ref().get_ref())),
            _ => protocol(lib(|| self.s.take_elems()), n, steps, &mut |t| {
                let s = see::<T>(&t);
                drop_lib(t);
                s
            }),
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn clone_elem_into(&self, i: usize, copy: bool, dst: &mut dyn SeqD) -> bool {
        let t = match self.s.iter().nth(i) {
            Some(t) => t,
            None => return false,
        };
        match clone_dyn::<T>(t, &self.caps, copy) {
            Some(d) => {
                push_to::<T>(dst, d);
                true
            }
            None => false,
        }
    }
}
fn drop_lib<X>(x: X) {
    lib(|| drop(x))
}

struct TakeI<'a, T: Spec> {
    it: varlen::seq::OwnedElems<'a, T>,
    cur: Option<Owned<'a, T>>,
    held: Vec<Owned<'a, T>>,
    caps: Caps<T>,
}
impl<'a, T: Spec> TakeD for TakeI<'a, T> {
    fn next(&mut self) -> bool {
        self.cur = None;
        let it = &mut self.it;
        self.cur = lib(|| it.next());
        self.cur.is_some()
    }
    fn hint(&self) -> (usize, Option<usize>, usize) {
        let h = lib(|| self.it.size_hint());
        (h.0, h.1, lib(|| self.it.len()))
    }
    fn see(&self) -> Option<Seen> {
        self.cur.as_ref().map(|o| see::<T>(o))
    }
    fn mutate(&mut self, v: &mut Val, g: &mut Gen) {
        if let Some(o) = &mut self.cur {
            o.as_mut().mutate(v, g)
        }
    }
    fn drop_it(&mut self) {
        let c = self.cur.take();
        drop_lib(c)
    }
    fn leak_it(&mut self) -> Option<Seen> {
        let o = self.cur.take()?;
        let p = lib(|| o.leak());
        Some(see::<T>(p.as_ref().get_ref()))
    }
    fn raw_it(&mut self, between: &mut dyn FnMut(usize)) {
        if let Some(o) = self.cur.take() {
            let p = lib(|| unsafe { o.into_raw() });
            between(p.as_ptr() as usize);
            self.cur = Some(lib(|| unsafe { Owned::from_raw(p) }));
        }
    }
    fn to_box(&mut self) -> Box<dyn BoxD> {
        let o = self.cur.take().expect("harness: no element");
        let d = dyn_of::<T, _>(o).kind("owned");
        let b = lib(|| VBox::new(d));
        Box::new(BoxI { b, caps: self.caps })
    }
    fn to_seq(&mut self, s: &mut dyn SeqD) {
        let o = self.cur.take().expect("harness: no element");
        push_to::<T>(s, dyn_of(o).kind("owned"))
    }
    fn to_arena<'b>(&mut self, b: &'b bumpalo::Bump) -> Box<dyn OwnD<'b> + 'b> {
        let o = self.cur.take().expect("harness: no element");
        let o = arena_new::<T>(dyn_of(o).kind("owned"), b);
        Box::new(OwnI { o, caps: self.caps })
    }
    fn clone_to_box(&mut self) -> Option<Box<dyn BoxD>> {
        let o = self.cur.as_ref()?;
        let d = clone_dyn::<T>(o, &self.caps, false)?;
        let b = lib(|| VBox::new(d));
        Some(Box::new(BoxI { b, caps: self.caps }))
    }
    fn hold(&mut self) {
        if let Some(o) = self.cur.take() {
            self.held.push(o)
        }
    }
    fn held(&self) -> Vec<Seen> {
        self.held.iter().map(|o| see::<T>(o)).collect()
    }
}

/// Everything the engine needs to know about one element type.
#[derive(Clone, Copy)]
pub struct TypeOps {
    pub name: fn() -> String,
    pub align: usize,
    pub ralign: usize,
    pub needs_vdrop: bool,
    pub rdrop: bool,
    pub has_ctl: bool,
    pub can_clone: bool,
    pub can_copy: bool,
    pub gen: fn(&mut Gen) -> Val,
    pub toks: fn(&Val) -> usize,
    pub events: fn(&Val) -> usize,
    pub place: fn(&Val, &mut usize, &mut Vec<(usize, usize)>),
    pub new_seq: fn(bool, usize) -> Box<dyn SeqD>,
    pub collect: fn(bool, &[Val], &mut Gen, usize) -> Box<dyn SeqD>,
    pub from_macro: fn(bool, &[Val], &mut Gen) -> Box<dyn SeqD>,
    pub new_box: fn(&Val, &mut Gen, &mut dyn FnMut()) -> Box<dyn BoxD>,
    pub new_arena: for<'b> fn(&Val, &mut Gen, &'b bumpalo::Bump) -> Box<dyn OwnD<'b> + 'b>,
    /// Constructions that must be refused: in a box, in an arena.
    pub huge_box: fn(&mut Gen) -> Option<Result<(), ctx::Caught>>,
    pub huge_arena: fn(&mut Gen, &bumpalo::Bump) -> Option<Result<(), ctx::Caught>>,
    pub predict: fn(&Val, &mut Gen) -> Option<usize>,
    /// Tags for the type-specific properties, such as "ctl", "str", "newtype", "macro".
    pub tags: &'static [&'static str],
}

thread_local! {
    static CAPS: std::cell::RefCell<std::collections::HashMap<std::any::TypeId, Box<dyn Any>>> = std::cell::RefCell::new(Default::default());
}
fn caps_of<T: Spec>() -> Caps<T> {
    CAPS.with(|c| c.borrow().get(&std::any::TypeId::of::<T>()).and_then(|b| b.downcast_ref::<Caps<T>>().copied())).unwrap_or_else(T::caps)
}
fn seq_of<T: Spec, I: IdxOps<T>>(s: Seq<T, I>) -> Box<dyn SeqD> {
    Box::new(SeqI { s, caps: caps_of::<T>() })
}
fn collect_as<T: Spec, I: IdxOps<T>>(vs: &[Val], g: &mut Gen, hint: usize) -> Box<dyn SeqD> {
    let caps = caps_of::<T>();
    let ds: Vec<Dyn<'static, T>> = vs.iter().map(|v| make_with::<T>(v, g, caps)).collect();
    let s: Seq<T, I> = lib(|| HintIter { it: ds.into_iter(), lo: hint }.collect());
    seq_of(s)
}
fn macro_as<T: Spec, I: IdxOps<T>>(vs: &[Val], g: &mut Gen) -> Box<dyn SeqD> {
    let mut ds: Vec<Dyn<'static, T>> = vs.iter().map(|v| make_with::<T>(v, g, T::caps())).collect();
    ds.reverse();
    let mut n = || ds.pop().unwrap();
    let s: Seq<T, I> = match vs.len() {
        0 => lib(|| seq![]),
        1 => lib(|| seq![n()]),
        2 => lib(|| seq![n(), n(),]),
        3 => lib(|| seq![n(), n(), n()]),
        _ => lib(|| {
            let mut s: Seq<T, I> = seq![n(), n(), n(), n()];
            for _ in 4..vs.len() {
                s.push(n())
            }
            s
        }),
    };
    seq_of(s)
}
pub fn ops<T: Spec>(full: Option<Caps<T>>, tags: &'static [&'static str]) -> TypeOps {
    if let Some(f) = full {
        CAPS.with(|c| c.borrow_mut().insert(std::any::TypeId::of::<T>(), Box::new(f)));
    }
    let caps = caps_of::<T>();
    TypeOps {
        name: T::name,
        align: T::ALIGN,
        ralign: T::RALIGN,
        needs_vdrop: T::NEEDS_VDROP,
        rdrop: T::RDROP,
        has_ctl: T::HAS_CTL,
        can_clone: caps.vclone.is_some(),
        can_copy: caps.vcopy.is_some(),
        gen: T::gen,
        toks: T::toks,
        events: T::events,
        place: T::place,
        new_seq: |idx, r| {
            if idx {
                seq_of::<T, CheckedIndexing>(lib(|| IdxOps::new(r)))
            } else {
                seq_of::<T, UncheckedIndexing>(lib(|| IdxOps::new(r)))
            }
        },
        collect: |idx, vs, g, h| {
            if idx {
                collect_as::<T, CheckedIndexing>(vs, g, h)
            } else {
                collect_as::<T, UncheckedIndexing>(vs, g, h)
            }
        },
        from_macro: |idx, vs, g| {
            if idx {
                macro_as::<T, CheckedIndexing>(vs, g)
            } else {
                macro_as::<T, UncheckedIndexing>(vs, g)
            }
        },
        new_box: |v, g, before| {
            let caps = caps_of::<T>();
            let d = make_with::<T>(v, g, caps);
            before();
            let b = lib(|| VBox::new(d));
            Box::new(BoxI { b, caps })
        },
        new_arena: |v, g, b| {
            let caps = caps_of::<T>();
            let d = make_with::<T>(v, g, caps);
            let o = arena_new::<T>(d, b);
            Box::new(OwnI { o, caps })
        },
        huge_box: |g| T::huge(g).map(|h| ctx::catch(|| drop(lib(|| VBox::new(h))))),
        huge_arena: |g, b| T::huge(g).map(|h| ctx::catch(|| drop(lib(|| Owned::new_in(h, b))))),
        predict: |v, g| {
            use varlen::Initializer;
            let d = T::init(v, g);
            let l = d.calculate_layout_cautious();
            l.map(|l| l.size())
        },
        tags,
    }
}
#[macro_export]
macro_rules! full_caps {
    ($t:ty, clone) => {
        Some($crate::spec::Caps::<$t> {
            vclone: Some(|a| $crate::spec::dyn_of(varlen::VClone::vclone(a))),
            vcopy: None,
            bclone: Some($crate::spec::cloned),
        })
    };
    ($t:ty, copy) => {
        Some($crate::spec::Caps::<$t> {
            vclone: Some(|a| $crate::spec::dyn_of(varlen::VClone::vclone(a))),
            vcopy: Some(|a| $crate::spec::dyn_of(varlen::VCopy::vcopy(a))),
            bclone: Some($crate::spec::cloned),
        })
    };
    ($t:ty, none) => {
        None::<$crate::spec::Caps<$t>>
    };
}
