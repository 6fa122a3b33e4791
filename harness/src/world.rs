//! The engine: random histories of operations on boxes, sequences, arena objects and raw handles of one
//! type, against a model. After every operation everything reachable is read back and compared, the live
//! user values are counted, and the allocator's view of the heap is compared with the model's.
use crate::ctx::{self, fail, Caught};
use crate::galloc::{self, lib, EvKind};
use crate::objs::*;
use crate::rng::mix;
use crate::spec::*;
use crate::tok;
use crate::vassert;
use bumpalo::Bump;

pub type Tags = Vec<&'static str>;

pub struct SeqM {
    pub s: Box<dyn SeqD>,
    /// Values and offsets of the elements.
    pub m: Vec<(Val, usize)>,
    pub occ: usize,
    pub cap: usize,
}
pub struct RawM {
    addr: usize,
    back: Box<dyn FnOnce() -> Box<dyn BoxD>>,
    val: Val,
    size: usize,
}
pub struct World<'b> {
    pub t: TypeOps,
    pub name: String,
    pub g: Gen,
    pub bump: &'b Bump,
    pub boxes: Vec<(Box<dyn BoxD>, Val)>,
    pub raws: Vec<RawM>,
    pub owns: Vec<(Box<dyn OwnD<'b> + 'b>, Val)>,
    pub leaks: Vec<(Box<dyn ObjD + 'b>, Val)>,
    pub seqs: Vec<SeqM>,
    /// Tokens that may never be dropped (explicit leaks, values interrupted by a panic).
    pub leaked: i64,
    /// Library blocks given up because of a panic.
    pub lost_blocks: i64,
    pub tags: Tags,
    pub op: &'static str,
    pub hash: u64,
    pub max_objs: usize,
    pub max_elems: usize,
    pub type_tags: Tags,
    base_live: u64,
    arena_chunks: u64,
    steps: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    BoxNew,
    BoxMutate,
    BoxClone,
    BoxDrop,
    RawOut,
    RawIn,
    RawTrip,
    BoxToSeq,
    BoxToArena,
    BoxToBox,
    BoxCloneTo,
    ArenaNew,
    ArenaMutate,
    ArenaDrop,
    ArenaLeak,
    ArenaRaw,
    ArenaTo,
    ArenaClone,
    SeqNew,
    SeqDrop,
    Push,
    Extend,
    Collect,
    FromMacro,
    Iter,
    IterMut,
    AllMut,
    AtMut,
    Offsets,
    Foreign,
    Take,
    Forget,
    SeqClone,
    Ctl,
    Panicking,
    Huge,
    TakeAll,
    Protocol,
    CloneFrom,
}
use Op::*;
pub const OPS: [Op; 39] = [
    BoxNew, BoxMutate, BoxClone, BoxDrop, RawOut, RawIn, RawTrip, BoxToSeq, BoxToArena, BoxToBox, BoxCloneTo, ArenaNew,
    ArenaMutate, ArenaDrop, ArenaLeak, ArenaRaw, ArenaTo, ArenaClone, SeqNew, SeqDrop, Push, Extend, Collect, FromMacro,
    Iter, IterMut, AllMut, AtMut, Offsets, Foreign, Take, Forget, SeqClone, Ctl, Panicking, Huge, TakeAll, Protocol,
    CloneFrom,
];
pub fn default_weight(op: Op) -> u32 {
    match op {
        Push => 30,
        BoxNew | Take => 8,
        Extend | AtMut | IterMut | Offsets => 6,
        BoxMutate | ArenaNew | BoxToSeq => 5,
        BoxClone | SeqClone | ArenaTo | Iter | AllMut | BoxDrop => 4,
        SeqNew | Collect | ArenaMutate | Ctl | BoxCloneTo | TakeAll => 3,
        RawOut | RawTrip | BoxToArena | BoxToBox | ArenaDrop | FromMacro | SeqDrop => 2,
        RawIn => 4,
        ArenaRaw | ArenaLeak | ArenaClone | Forget | Foreign => 2,
        Protocol | CloneFrom => 3,
        Panicking | Huge => 2,
    }
}

/// Number of operations of `alloc_failing`.
pub const FAULTS: usize = 12;

/// Something that goes wrong during an operation.
#[derive(Clone, Copy, Debug)]
enum Fault {
    /// User code of this kind panics, after this many undisturbed calls.
    User(u8, i64),
    /// An allocation fails, after this many that succeed.
    Alloc(i64),
}
impl Fault {
    fn arm(self, extra: i64) {
        match self {
            Fault::User(k, n) => tok::plan(k, n + extra),
            Fault::Alloc(n) => galloc::fail_at(n),
        }
    }
}

fn with(base: &[&'static str], more: &[&'static str]) -> Tags {
    let mut v: Tags = base.to_vec();
    v.extend_from_slice(more);
    v
}
fn hints_ok(hints: &[(usize, Option<usize>, usize)], n: usize) -> bool {
    hints.len() == n + 1 && hints.iter().enumerate().all(|(i, h)| h.0 == n - i && h.1 == Some(n - i) && h.2 == n - i)
}

impl<'b> World<'b> {
    pub fn new(t: TypeOps, g: Gen, bump: &'b Bump) -> World<'b> {
        let mut type_tags: Tags = Vec::new();
        for x in t.tags {
            type_tags.push(match *x {
                "macro" => "C18",
                "newtype" => "C23",
                "str" => "C19",
                _ => continue,
            });
        }
        galloc::flush_quarantine();
        let _ = galloc::take_err();
        World {
            name: (t.name)(),
            t,
            g,
            bump,
            boxes: Vec::new(),
            raws: Vec::new(),
            owns: Vec::new(),
            leaks: Vec::new(),
            seqs: Vec::new(),
            leaked: 0,
            lost_blocks: 0,
            tags: Vec::new(),
            op: "start",
            hash: 0,
            max_objs: 4,
            max_elems: 24,
            type_tags,
            base_live: galloc::totals().live_blocks,
            arena_chunks: 0,
            steps: 0,
        }
    }
    fn all_tags(&self, more: &[&'static str]) -> Tags {
        let mut v = self.tags.clone();
        v.extend_from_slice(&self.type_tags);
        v.extend_from_slice(more);
        v
    }
    #[cold]
    fn bad(&self, more: &[&'static str], msg: String) {
        fail(&self.all_tags(more), format!("{}: after {}: {}", self.name, self.op, msg));
    }
    fn size(&self, v: &Val) -> usize {
        let mut at = 0;
        (self.t.place)(v, &mut at, &mut Vec::new());
        at
    }
    fn units(&self, v: &Val) -> usize {
        let a = self.t.ralign;
        (self.size(v).max(1) + a - 1) / a
    }
    fn gen(&mut self) -> Val {
        (self.t.gen)(&mut self.g)
    }

    /// Compares what was read with the model: contents, size, place of every part.
    fn judge(&self, what: &str, seen: &Seen, v: &Val, tags: &[&'static str]) {
        if seen.val != *v {
            self.bad(
                &with(&["C02"], tags),
                format!("{} reads {} instead of {}", what, seen.val.brief(), v.brief()),
            );
            return;
        }
        let mut lv = Vec::new();
        let mut at = 0;
        (self.t.place)(v, &mut at, &mut lv);
        if seen.size != at {
            self.bad(&with(&["C05", "C06"], tags), format!("{} reports size {} instead of {}", what, seen.size, at));
        }
        if seen.addr % self.t.ralign != 0 {
            self.bad(&with(&["C05", "C06", "C01"], tags), format!("{} is at {:#x}, not aligned to {}", what, seen.addr, self.t.ralign));
        }
        if lv.len() != seen.obs.leaves.len() {
            self.bad(&["C06", "C18"], format!("{} has {} parts instead of {}", what, seen.obs.leaves.len(), lv.len()));
            return;
        }
        for (i, (o, l)) in seen.obs.leaves.iter().zip(lv.iter()).enumerate() {
            if o.1 != l.1 || (l.1 != 0 && o.0 != seen.addr.wrapping_add(l.0)) {
                self.bad(
                    &["C06", "C05", "C18", "C23"],
                    format!(
                        "part {} of {} is {} bytes at offset {} instead of {} bytes at offset {}",
                        i,
                        what,
                        o.1,
                        o.0.wrapping_sub(seen.addr) as isize,
                        l.1,
                        l.0
                    ),
                );
                return;
            }
        }
    }

    /// Everything reachable is compared with the model.
    pub fn check(&mut self, allow_leak: bool) {
        if ctx::poisoned() {
            return;
        }
        self.steps += 1;
        galloc::mark();
        let mut toks = 0i64;
        let mut blocks = 0i64;
        for (b, v) in &self.boxes {
            let s = b.see();
            self.judge("a box", &s, v, &[]);
            toks += (self.t.toks)(v) as i64;
            blocks += (s.size > 0) as i64;
            if galloc::ON && s.size > 0 {
                let bl = galloc::block_of(s.addr);
                if bl != Some((s.addr, s.size, self.t.ralign)) {
                    self.bad(&["C07", "C01", "C05"], format!("a box of size {} align {} lives in block {:x?}", s.size, self.t.ralign, bl));
                }
            }
        }
        for r in &self.raws {
            toks += (self.t.toks)(&r.val) as i64;
            blocks += (r.size > 0) as i64;
        }
        let mut ext: Vec<(usize, usize)> = Vec::new();
        for (o, v) in &self.owns {
            let s = o.see();
            self.judge("an arena object", &s, v, &["C22"]);
            toks += (self.t.toks)(v) as i64;
            ext.push((s.addr, s.size));
        }
        for (o, v) in &self.leaks {
            let s = o.see();
            self.judge("a leaked object", &s, v, &["C21", "C22"]);
            toks += (self.t.toks)(v) as i64;
            ext.push((s.addr, s.size));
        }
        ext.sort();
        for w in ext.windows(2) {
            if w[0].1 > 0 && w[1].1 > 0 && w[0].0 + w[0].1 > w[1].0 {
                self.bad(&["C22", "C01"], "arena objects overlap".to_string());
            }
        }
        for i in 0..self.seqs.len() {
            self.check_seq(i);
            for (v, _) in &self.seqs[i].m {
                toks += (self.t.toks)(v) as i64;
            }
            let cap = self.seqs[i].s.capacity();
            blocks += (cap > 0) as i64;
        }
        if ctx::poisoned() {
            return;
        }
        self.no_events("reading");
        let live = tok::live();
        let want = toks + self.leaked;
        if live != want {
            if allow_leak && live > want {
                self.leaked += live - want;
                ctx::add("leaked_by_panic", (live - want) as u64);
            } else {
                self.bad(
                    &["C03", "C01"],
                    format!("{} user values are live, but {} are held ({} more were given up)", live, toks, self.leaked),
                );
            }
        }
        if galloc::ON {
            let got = galloc::totals().live_blocks as i64 - self.base_live as i64;
            let want = blocks + self.lost_blocks + self.arena_chunks as i64;
            if got != want {
                if allow_leak && got > want {
                    self.lost_blocks += got - want;
                } else {
                    self.bad(&["C07", "C03", "C01"], format!("{} heap blocks are live instead of {}", got, want));
                }
            }
            galloc::sweep();
        }
        ctx::poll();
    }

    fn check_seq(&mut self, i: usize) {
        let st = ["C10", "C14"];
        let q = &self.seqs[i];
        if q.s.len() != q.m.len() {
            self.bad(&with(&["C02"], &st), format!("sequence has length {} instead of {}", q.s.len(), q.m.len()));
            return;
        }
        if q.s.offset() != q.occ {
            self.bad(&["C12", "C10", "C06"], format!("sequence announces offset {} instead of {}", q.s.offset(), q.occ));
            return;
        }
        let cap = q.s.capacity();
        if cap < q.occ {
            self.bad(&["C13", "C01", "C07"], format!("capacity {} is less than the {} occupied units", cap, q.occ));
        }
        if cap < q.cap {
            self.bad(&["C13", "C14", "C07"], format!("capacity shrank from {} to {}", q.cap, cap));
        }
        let it = q.s.iter(IterHow::All);
        if it.elems.len() != q.m.len() || it.count != q.m.len() || !it.fused || !hints_ok(&it.hints, q.m.len()) {
            self.bad(
                &st,
                format!("iteration gives {} elements, count {}, hints {:?} for {} elements", it.elems.len(), it.count, it.hints, q.m.len()),
            );
            return;
        }
        let mut base = None;
        for (k, (e, (v, off))) in it.elems.iter().zip(q.m.iter()).enumerate() {
            self.judge(&format!("element {} of a sequence", k), e, v, &["C10"]);
            let b = *base.get_or_insert(e.addr.wrapping_sub(off * self.t.ralign));
            if e.addr != b + off * self.t.ralign {
                self.bad(&["C06", "C12", "C10", "C01"], format!("element {} is at unit {} instead of {}", k, (e.addr.wrapping_sub(b)) as isize / self.t.ralign as isize, off));
                return;
            }
        }
        if ctx::poisoned() {
            return;
        }
        if let Some(b) = base {
            if galloc::ON {
                let bits = if q.s.indexed() { (cap + 7) / 8 } else { 0 };
                match galloc::block_of(b) {
                    Some((s, n, a)) if s == b && n >= cap * self.t.ralign && n <= cap * self.t.ralign + bits && a == self.t.ralign => {}
                    bl => self.bad(
                        &["C07", "C05", "C01"],
                        format!("a sequence of capacity {} units of {} bytes at {:#x} lives in block {:x?}", cap, self.t.ralign, b, bl),
                    ),
                }
            }
        }
        let offs = q.s.offsets_of();
        if offs.len() != q.m.len() || offs.iter().zip(q.m.iter()).any(|(a, b)| *a != b.1) {
            self.bad(&["C12", "C10"], format!("offset_of gives {:?} instead of {:?}", offs, q.m.iter().map(|x| x.1).collect::<Vec<_>>()));
            return;
        }
        if q.s.indexed() {
            self.check_valid(i, false);
        }
        let q = &mut self.seqs[i];
        q.cap = cap;
    }

    /// Checked indexing: exactly the element starts are valid.
    fn check_valid(&mut self, i: usize, access: bool) {
        let q = &self.seqs[i];
        let t = ["C11", "C01", "C14", "C04"];
        let mut next = 0;
        let mut refused = Vec::new();
        let hi = q.occ.max(q.cap.min(q.occ + 200)) + 70;
        let step_all = hi < 4000;
        let mut probes: Vec<usize> = Vec::new();
        if step_all {
            probes.extend(0..hi);
        } else {
            for (_, o) in &q.m {
                for d in 0..3 {
                    probes.push((o + d).saturating_sub(1));
                }
            }
            probes.extend(hi - 70..hi);
            probes.sort();
            probes.dedup();
        }
        probes.push(1usize.checked_shl(32).unwrap_or(usize::MAX));
        probes.push(usize::MAX / self.t.ralign);
        probes.push(usize::MAX / 8);
        probes.push((usize::MAX >> 1) + 1);
        probes.push(usize::MAX - 7);
        probes.push(usize::MAX);
        ctx::add("offsets_probed", probes.len() as u64);
        for p in probes {
            while next < q.m.len() && q.m[next].1 < p {
                next += 1;
            }
            let want = next < q.m.len() && q.m[next].1 == p;
            let got = q.s.valid(p);
            if got != want {
                self.bad(&t, format!("offset {:#x} is reported {} (elements at {:?}, {} units occupied)", p, if got { "valid" } else { "invalid" }, q.m.iter().map(|x| x.1).collect::<Vec<_>>(), q.occ));
                return;
            }
            if access || want {
                match q.s.at_checked(p) {
                    Ok(s) if want => self.judge("an element accessed by offset", &s, &q.m[next].0, &["C11", "C12"]),
                    Ok(_) => self.bad(&t, format!("access at the invalid offset {:#x} succeeds", p)),
                    Err(Caught::Panic(_)) if !want => {}
                    Err(e) => self.bad(&["C11", "C12", "C10"], format!("access at the valid offset {:#x} fails: {:?}", p, e)),
                }
            }
            if access && !want {
                refused.push(p);
            }
            if ctx::poisoned() {
                return;
            }
        }
        for p in refused {
            let mut reached = false;
            match self.seqs[i].s.at_checked_mut(p, &mut |_| reached = true) {
                Ok(()) => self.bad(&t, format!("mutable access at the invalid offset {:#x} succeeds", p)),
                Err(Caught::Panic(_)) if !reached => {}
                Err(e) => self.bad(&t, format!("mutable access at the invalid offset {:#x} is not refused: {:?}", p, e)),
            }
        }
    }

    fn pick_seq(&mut self) -> Option<usize> {
        if self.seqs.is_empty() {
            return None;
        }
        Some(self.g.r.below(self.seqs.len()))
    }
    fn new_seq(&mut self) -> usize {
        let idx = self.g.r.chance(1, 2);
        let r = self.g.r.below(3);
        galloc::mark();
        let s = (self.t.new_seq)(idx, r);
        let (evs, n) = galloc::events();
        vassert!(self.all_tags(&["C07"]), n == 0, "{}: an empty sequence allocates ({:?})", self.name, evs);
        self.seqs.push(SeqM { s, m: Vec::new(), occ: 0, cap: 0 });
        self.seqs.len() - 1
    }
    fn seq_or_new(&mut self) -> usize {
        if self.seqs.is_empty() || (self.seqs.len() < 3 && self.g.r.chance(1, 12)) {
            self.new_seq()
        } else {
            self.g.r.below(self.seqs.len())
        }
    }
    fn note_push(&mut self, i: usize, v: Val) {
        let u = self.units(&v);
        let q = &mut self.seqs[i];
        q.m.push((v, q.occ));
        q.occ += u;
    }
    /// Judges the heap events of a push that added `n` elements to sequence `i`.
    fn push_events(&self, i: usize, before_cap: usize) {
        if !galloc::ON {
            return;
        }
        let (evs, n) = galloc::events();
        let q = &self.seqs[i];
        let grew = q.occ > before_cap;
        let allocs = evs.iter().filter(|e| e.kind == EvKind::Alloc).count();
        let reallocs = evs.iter().filter(|e| e.kind == EvKind::Realloc).count();
        // Temporaries used as initializers are freed during the push; nothing else may be allocated.
        if n <= evs.len() && (allocs + reallocs > 1 || (allocs + reallocs == 1) != grew) {
            self.bad(
                &["C07", "C13"],
                format!("a push that {} capacity made {} allocations and {} reallocations", if grew { "exceeds" } else { "fits" }, allocs, reallocs),
            );
        }
    }
    fn no_events(&self, what: &str) {
        if !galloc::ON {
            return;
        }
        let (evs, n) = galloc::events();
        if n != 0 {
            self.bad(&["C07"], format!("{} touches the heap: {:?}", what, evs.first()));
        }
    }
    fn one_alloc(&self, what: &str, v: &Val, moved_from_box: bool) {
        if !galloc::ON {
            return;
        }
        let (evs, n) = galloc::events();
        let size = self.size(v);
        let allocs: Vec<_> = evs.iter().filter(|e| e.kind == EvKind::Alloc).collect();
        let re = evs.iter().filter(|e| e.kind == EvKind::Realloc).count();
        let _ = moved_from_box;
        if n <= evs.len()
            && (re != 0 || allocs.len() != (size > 0) as usize || allocs.iter().any(|a| a.size != size || a.align != self.t.ralign))
        {
            self.bad(&["C07"], format!("{} for {} bytes aligned to {} makes the heap events {:?}", what, size, self.t.ralign, evs));
        }
    }
    /// Arena operations: at most the arena's own chunk is allocated.
    fn arena_events(&mut self, chunk_bytes_before: usize) {
        if !galloc::ON {
            return;
        }
        let (evs, n) = galloc::events();
        let grew = self.bump.allocated_bytes() != chunk_bytes_before;
        let allocs = evs.iter().filter(|e| e.kind == EvKind::Alloc).count();
        self.arena_chunks += grew as u64;
        if n <= evs.len() && allocs != grew as usize {
            self.bad(&["C07", "C22"], format!("an arena object uses the heap: {:?}", evs));
        }
    }

    /// Performs one operation; returns false if it was not applicable.
    pub fn step(&mut self, op: Op) -> bool {
        let full = |n: usize, s: &Self| n >= s.max_objs;
        self.op = "?";
        match op {
            BoxNew => {
                self.tags = vec!["C05", "C20"];
                self.op = "VBox::new";
                if full(self.boxes.len(), self) {
                    self.boxes.swap_remove(0);
                }
                let v = self.gen();
                ctx::trace(|| format!("box {}", v.brief()));
                let b = (self.t.new_box)(&v, &mut self.g, &mut || galloc::mark());
                self.one_alloc("a box", &v, false);
                self.hash = v.shape(mix(self.hash, 1));
                self.boxes.push((b, v));
            }
            BoxMutate => {
                self.tags = vec!["C16"];
                self.op = "mutation of a box";
                if self.boxes.is_empty() {
                    return false;
                }
                let i = self.g.r.below(self.boxes.len());
                galloc::mark();
                let (b, v) = &mut self.boxes[i];
                b.mutate(v, &mut self.g);
                self.no_events("mutable access");
            }
            BoxClone => {
                self.tags = vec!["C15"];
                if self.boxes.is_empty() || !self.t.can_clone {
                    return false;
                }
                if full(self.boxes.len(), self) {
                    self.boxes.pop();
                }
                if self.boxes.is_empty() {
                    return false;
                }
                let i = self.g.r.below(self.boxes.len());
                let how = self.g.r.below(3);
                if how == 2 && !self.t.can_copy {
                    return false;
                }
                self.op = ["VBox::clone", "vclone", "vcopy"][how];
                galloc::mark();
                let c0 = tok::counts();
                let n = match how {
                    0 => self.boxes[i].0.bclone(),
                    1 => self.boxes[i].0.vclone(false),
                    _ => self.boxes[i].0.vclone(true),
                };
                let v = self.boxes[i].1.clone();
                let Some(n) = n else { return false };
                self.one_alloc("a clone", &v, false);
                let cl = tok::counts().cloned - c0.cloned;
                let want = if how == 2 { 0 } else { (self.t.events)(&v) as u64 };
                if cl != want {
                    self.bad(&["C15", "C20"], format!("Clone was called {} times for {} values", cl, want));
                }
                ctx::count("clones");
                self.boxes.push((n, v));
            }
            BoxDrop => {
                self.tags = vec!["C03", "C07"];
                self.op = "drop of a box";
                if self.boxes.is_empty() {
                    return false;
                }
                let i = self.g.r.below(self.boxes.len());
                let (b, _) = self.boxes.swap_remove(i);
                lib(|| drop(b));
            }
            RawOut => {
                self.tags = vec!["C21"];
                self.op = "VBox::into_raw";
                if self.boxes.is_empty() || self.raws.len() >= 2 {
                    return false;
                }
                let i = self.g.r.below(self.boxes.len());
                let (b, v) = self.boxes.swap_remove(i);
                let addr0 = b.see().addr;
                galloc::mark();
                let (addr, back) = b.raw_leak();
                self.no_events("into_raw");
                if addr != addr0 {
                    self.bad(&["C21"], format!("into_raw gives {:#x} for an object at {:#x}", addr, addr0));
                }
                let size = self.size(&v);
                self.raws.push(RawM { addr, back, val: v, size });
            }
            RawIn => {
                self.tags = vec!["C21"];
                self.op = "VBox::from_raw";
                if self.raws.is_empty() {
                    return false;
                }
                let r = self.raws.remove(0);
                galloc::mark();
                let b = (r.back)();
                self.no_events("from_raw");
                let a = b.see().addr;
                if a != r.addr {
                    self.bad(&["C21"], format!("from_raw of {:#x} gives an object at {:#x}", r.addr, a));
                }
                self.boxes.push((b, r.val));
            }
            RawTrip => {
                self.tags = vec!["C21"];
                self.op = "raw round trip of a box";
                if self.boxes.is_empty() {
                    return false;
                }
                let i = self.g.r.below(self.boxes.len());
                let (b, v) = self.boxes.swap_remove(i);
                let a = b.see().addr;
                let c0 = tok::counts();
                galloc::mark();
                let mut p = 0;
                let b = b.raw_trip(&mut |x| p = x);
                self.no_events("raw round trip");
                if p != a || b.see().addr != a || tok::counts() != c0 {
                    self.bad(&["C21"], "the raw round trip moved, dropped or created something".to_string());
                }
                self.boxes.push((b, v));
            }
            BoxToSeq => {
                self.tags = vec!["C10", "C14"];
                self.op = "move of a box into a sequence";
                if self.boxes.is_empty() {
                    return false;
                }
                let i = self.g.r.below(self.boxes.len());
                let k = self.seq_or_new();
                if self.seqs[k].m.len() >= self.max_elems {
                    return false;
                }
                let (b, v) = self.boxes.swap_remove(i);
                let c0 = tok::counts();
                let cap = self.seqs[k].s.capacity();
                galloc::mark();
                b.into_seq(&mut *self.seqs[k].s);
                if tok::counts() != c0 {
                    self.bad(&["C03", "C02", "C14"], "moving creates, clones or drops user values".to_string());
                }
                self.note_push(k, v);
                self.push_events(k, cap);
            }
            BoxToArena => {
                self.tags = vec!["C22"];
                self.op = "move of a box into an arena";
                if self.boxes.is_empty() || full(self.owns.len(), self) {
                    return false;
                }
                let (b, v) = self.boxes.swap_remove(0);
                galloc::mark();
                let n0 = self.bump.allocated_bytes();
                let o = b.into_arena(self.bump);
                self.arena_events(n0);
                self.owns.push((o, v));
            }
            BoxToBox => {
                self.tags = vec!["C02"];
                self.op = "move of a box into a box";
                if self.boxes.is_empty() {
                    return false;
                }
                let i = self.g.r.below(self.boxes.len());
                let (b, v) = self.boxes.swap_remove(i);
                galloc::mark();
                let b = b.into_box();
                self.one_alloc("a move between boxes", &v, true);
                self.boxes.push((b, v));
            }
            BoxCloneTo => {
                self.tags = vec!["C15"];
                self.op = "clone of a box into another container";
                if self.boxes.is_empty() || !self.t.can_clone {
                    return false;
                }
                let i = self.g.r.below(self.boxes.len());
                let copy = self.t.can_copy && self.g.r.chance(1, 2);
                let v = self.boxes[i].1.clone();
                if self.g.r.chance(1, 2) {
                    let k = self.seq_or_new();
                    if self.seqs[k].m.len() >= self.max_elems {
                        return false;
                    }
                    if self.boxes[i].0.clone_into_seq(&mut *self.seqs[k].s, copy) {
                        self.note_push(k, v);
                    }
                } else {
                    if full(self.owns.len(), self) {
                        return false;
                    }
                    galloc::mark();
                    let n0 = self.bump.allocated_bytes();
                    if let Some(o) = self.boxes[i].0.clone_into_arena(self.bump, copy) {
                        self.arena_events(n0);
                        self.owns.push((o, v));
                    }
                }
            }
            ArenaNew => {
                self.tags = vec!["C22", "C05"];
                self.op = "Owned::new_in";
                if full(self.owns.len(), self) {
                    return false;
                }
                let v = self.gen();
                ctx::trace(|| format!("arena {}", v.brief()));
                let n0 = self.bump.allocated_bytes();
                self.g.direct = true;
                galloc::mark();
                let o = (self.t.new_arena)(&v, &mut self.g, self.bump);
                self.g.direct = false;
                self.arena_events(n0);
                self.hash = v.shape(mix(self.hash, 2));
                self.owns.push((o, v));
            }
            ArenaMutate => {
                self.tags = vec!["C16", "C22"];
                self.op = "mutation of an arena object";
                if self.owns.is_empty() {
                    return false;
                }
                let i = self.g.r.below(self.owns.len());
                if !self.leaks.is_empty() && self.g.r.chance(1, 4) {
                    let i = self.g.r.below(self.leaks.len());
                    let (o, v) = &mut self.leaks[i];
                    o.mutate(v, &mut self.g);
                } else {
                    let (o, v) = &mut self.owns[i];
                    o.mutate(v, &mut self.g);
                }
            }
            ArenaDrop => {
                self.tags = vec!["C22", "C03"];
                self.op = "drop of an arena handle";
                if self.owns.is_empty() {
                    return false;
                }
                let i = self.g.r.below(self.owns.len());
                let (o, _) = self.owns.swap_remove(i);
                galloc::mark();
                lib(|| drop(o));
            }
            ArenaLeak => {
                self.tags = vec!["C21", "C22"];
                self.op = "Owned::leak";
                if self.owns.is_empty() || self.leaks.len() >= 2 {
                    return false;
                }
                let i = self.g.r.below(self.owns.len());
                let (o, v) = self.owns.swap_remove(i);
                let a = o.see().addr;
                let c0 = tok::counts();
                let l = o.leak();
                if tok::counts() != c0 {
                    self.bad(&["C21", "C03"], "leak runs destructors".to_string());
                }
                if l.see().addr != a {
                    self.bad(&["C21"], "leak moved the object".to_string());
                }
                self.leaks.push((l, v));
            }
            ArenaRaw => {
                self.tags = vec!["C21", "C22"];
                self.op = "raw round trip of an arena handle";
                if self.owns.is_empty() {
                    return false;
                }
                let i = self.g.r.below(self.owns.len());
                let (o, v) = self.owns.swap_remove(i);
                let a = o.see().addr;
                let c0 = tok::counts();
                let mut p = 0;
                let o = o.raw_trip(&mut |x| p = x);
                if p != a || o.see().addr != a || tok::counts() != c0 {
                    self.bad(&["C21"], "the raw round trip moved, dropped or created something".to_string());
                }
                self.owns.push((o, v));
            }
            ArenaTo => {
                self.tags = vec!["C22", "C14"];
                self.op = "move of an arena object into another container";
                if self.owns.is_empty() {
                    return false;
                }
                let i = self.g.r.below(self.owns.len());
                let c0 = tok::counts();
                match self.g.r.below(3) {
                    0 => {
                        if full(self.boxes.len(), self) {
                            return false;
                        }
                        let (o, v) = self.owns.swap_remove(i);
                        galloc::mark();
                        let b = o.into_box();
                        self.one_alloc("a box from an arena object", &v, false);
                        self.boxes.push((b, v));
                    }
                    1 => {
                        let k = self.seq_or_new();
                        if self.seqs[k].m.len() >= self.max_elems {
                            return false;
                        }
                        let (o, v) = self.owns.swap_remove(i);
                        let cap = self.seqs[k].s.capacity();
                        galloc::mark();
                        o.into_seq(&mut *self.seqs[k].s);
                        self.note_push(k, v);
                        self.push_events(k, cap);
                    }
                    _ => {
                        let (o, v) = self.owns.swap_remove(i);
                        galloc::mark();
                        let n0 = self.bump.allocated_bytes();
                        let o = o.into_arena(self.bump);
                        self.arena_events(n0);
                        self.owns.push((o, v));
                    }
                }
                if tok::counts() != c0 {
                    self.bad(&["C03", "C02", "C14", "C22"], "moving creates, clones or drops user values".to_string());
                }
            }
            ArenaClone => {
                self.tags = vec!["C15", "C22"];
                self.op = "clone of an arena object into a box";
                if self.owns.is_empty() || full(self.boxes.len(), self) {
                    return false;
                }
                let i = self.g.r.below(self.owns.len());
                let copy = self.t.can_copy && self.g.r.chance(1, 2);
                match self.owns[i].0.clone_into_box(copy) {
                    Some(b) => {
                        let v = self.owns[i].1.clone();
                        self.boxes.push((b, v));
                    }
                    None => return false,
                }
            }
            SeqNew => {
                self.tags = vec!["C10"];
                self.op = "Seq::new";
                if self.seqs.len() >= 3 {
                    let k = self.g.r.below(3);
                    lib(|| self.seqs.swap_remove(k));
                }
                self.new_seq();
            }
            SeqDrop => {
                self.tags = vec!["C03", "C07"];
                self.op = "drop of a sequence";
                match self.pick_seq() {
                    Some(k) => {
                        let q = self.seqs.swap_remove(k);
                        lib(|| drop(q.s));
                    }
                    None => return false,
                }
            }
            Push => {
                self.tags = vec!["C10", "C12", "C05"];
                self.op = "Seq::push";
                let k = self.seq_or_new();
                if self.seqs[k].m.len() >= self.max_elems {
                    return false;
                }
                let v = self.gen();
                ctx::trace(|| format!("push {}", v.brief()));
                let cap = self.seqs[k].s.capacity();
                self.seqs[k].s.push(&v, &mut self.g, &mut || galloc::mark());
                self.hash = v.shape(mix(self.hash, 3));
                self.note_push(k, v);
                self.push_events(k, cap);
                ctx::count("pushes");
            }
            Extend => {
                self.tags = vec!["C10"];
                self.op = "Seq::extend";
                let k = self.seq_or_new();
                let n = self.g.r.range(0, 6);
                if self.seqs[k].m.len() + n > self.max_elems {
                    return false;
                }
                let vs: Vec<Val> = (0..n).map(|_| self.gen()).collect();
                let hint = if self.g.r.chance(1, 2) { n } else { self.g.r.below(40) };
                self.seqs[k].s.extend(&vs, &mut self.g, hint, &mut || ());
                self.hash = mix(self.hash, 4 + n as u64);
                for v in vs {
                    self.note_push(k, v);
                }
            }
            Collect | FromMacro => {
                self.tags = vec!["C10"];
                let n = self.g.r.range(0, 6);
                let idx = self.g.r.chance(1, 2);
                if self.seqs.len() >= 3 {
                    let k = self.g.r.below(3);
                    lib(|| self.seqs.swap_remove(k));
                }
                let vs: Vec<Val> = (0..n).map(|_| self.gen()).collect();
                let s = if op == Collect {
                    self.op = "collect";
                    (self.t.collect)(idx, &vs, &mut self.g, n)
                } else {
                    self.op = "seq!";
                    (self.t.from_macro)(idx, &vs, &mut self.g)
                };
                self.seqs.push(SeqM { s, m: Vec::new(), occ: 0, cap: 0 });
                let k = self.seqs.len() - 1;
                for v in vs {
                    self.note_push(k, v);
                }
            }
            Iter => {
                self.tags = vec!["C10"];
                self.op = "iteration";
                let Some(k) = self.pick_seq() else { return false };
                let n = self.seqs[k].m.len();
                let (how, from, cnt) = self.pick_how(n);
                galloc::mark();
                let it = self.seqs[k].s.iter(how);
                let ok = it.elems.len() == cnt && it.count == cnt && it.fused && hints_ok(&it.hints, cnt);
                if !ok {
                    self.bad(
                        &["C10"],
                        format!("iteration {:?} over {} elements gives {} elements, count {}, hints {:?}", how, n, it.elems.len(), it.count, it.hints),
                    );
                    return true;
                }
                for (j, e) in it.elems.iter().enumerate() {
                    self.judge("an iterated element", e, &self.seqs[k].m[from + j].0, &["C10"]);
                }
            }
            IterMut => {
                self.tags = vec!["C10", "C16"];
                self.op = "mutable iteration";
                let Some(k) = self.pick_seq() else { return false };
                let n = self.seqs[k].m.len();
                let (how, from, cnt) = self.pick_how(n);
                let mut q = self.seqs.swap_remove(k);
                let g = &mut self.g;
                let m = &mut q.m;
                let mut order_ok = true;
                let (hints, count) = q.s.iter_mut(how, &mut |j, o| {
                    if j < cnt {
                        let v = &mut m[from + j].0;
                        if o.see().val != *v {
                            order_ok = false;
                        } else if g.r.chance(1, 2) {
                            o.mutate(v, g);
                        }
                    } else {
                        order_ok = false;
                    }
                });
                self.seqs.push(q);
                if !order_ok || count != cnt || !hints_ok(&hints, cnt) {
                    self.bad(&["C10", "C16"], format!("mutable iteration {:?} over {} elements: right elements {}, count {}, hints {:?}", how, n, order_ok, count, hints));
                }
            }
            Protocol => {
                let owned = self.g.r.chance(1, 3);
                let kind = if owned { 2 } else { self.g.r.below(2) };
                self.tags = if kind == 2 { vec!["C14", "C10"] } else { vec!["C10"] };
                self.op = ["use of Iter", "use of IterMut", "use of OwnedElems"][kind];
                let Some(k) = self.pick_seq() else { return false };
                let n = self.seqs[k].m.len();
                let mut steps = Vec::new();
                for _ in 0..self.g.r.below(4) {
                    let far = self.g.r.chance(1, 4);
                    let m = self.g.r.below(if far { n + 2 } else { 3 });
                    steps.push(match self.g.r.below(4) {
                        0 => Step::Next,
                        1 => Step::Nth(if self.g.r.chance(1, 20) { usize::MAX } else { m }),
                        2 => Step::TakeRef(m),
                        _ => Step::Position(m),
                    });
                }
                let m = self.g.r.below(n + 2);
                steps.push(match self.g.r.below(10) {
                    0 => Step::Last,
                    1 => Step::Count,
                    2 => Step::Fold,
                    3 => Step::ForEach,
                    4 => Step::Collect,
                    5 => Step::Skip(m),
                    6 => Step::StepBy(m.max(1)),
                    7 => Step::Zip,
                    8 => Step::Nth(m),
                    _ => Step::Drop,
                });
                galloc::mark();
                let p = self.seqs[k].s.protocol(kind, n, &steps);
                let t = if kind == 2 { ["C14", "C10"] } else { ["C10", "C10"] };
                if let Some(b) = p.bad {
                    self.bad(&t, format!("{:?} over {} elements: {}", steps, n, b));
                    return true;
                }
                for (j, e) in &p.elems {
                    self.judge("an element delivered by an iterator", e, &self.seqs[k].m[*j].0, &t);
                }
                if kind == 2 {
                    self.seqs[k].m.clear();
                    self.seqs[k].occ = 0;
                }
            }
            CloneFrom => {
                self.tags = vec!["C15"];
                self.op = "VBox::clone_from";
                if self.boxes.is_empty() || !self.t.can_clone {
                    return false;
                }
                let i = self.g.r.below(self.boxes.len());
                if self.boxes.len() < 2 || self.g.r.chance(1, 2) {
                    // The target has the shape of the source.
                    let Some(mut b) = self.boxes[i].0.bclone() else { return false };
                    let mut v = self.boxes[i].1.clone();
                    b.mutate(&mut v, &mut self.g);
                    if full(self.boxes.len(), self) {
                        let j = (i + 1) % self.boxes.len();
                        if j != i {
                            self.boxes.swap_remove(j);
                        }
                    }
                    self.boxes.push((b, v));
                    let l = self.boxes.len();
                    if self.g.r.chance(3, 4) && l > 2 {
                        // Source and target are the last two.
                        let i = i.min(l - 2);
                        self.boxes.swap(i, l - 2);
                    }
                }
                let l = self.boxes.len();
                let (i, j) = if self.g.r.chance(1, 2) {
                    (l - 2, l - 1)
                } else {
                    let i = self.g.r.below(l);
                    (i, (i + 1 + self.g.r.below(l - 1)) % l)
                };
                let mut target = self.boxes.swap_remove(j.max(i));
                let mut source = self.boxes.swap_remove(j.min(i));
                if self.g.r.chance(1, 2) {
                    std::mem::swap(&mut source, &mut target);
                }
                let ((a, v), mut b) = (source, target.0);
                let fail = self.g.r.chance(1, 4);
                let c0 = tok::counts();
                if fail {
                    self.tags = vec!["C15", "C04"];
                    let k = self.g.r.below(4) as i64;
                    tok::plan(tok::CLONE, k);
                }
                let r = ctx::catch(|| b.bclone_from(&*a));
                tok::clear_plan();
                if r.is_err() {
                    // What the target holds is not said, but it can be read and dropped.
                    let _ = b.see();
                    lib(|| drop(b));
                } else {
                    let cl = tok::counts().cloned - c0.cloned;
                    let want = (self.t.events)(&v) as u64;
                    if cl != want {
                        self.bad(&["C15", "C20"], format!("Clone was called {} times for {} values", cl, want));
                    }
                    self.boxes.push((b, v.clone()));
                }
                let failed = r.is_err();
                self.boxes.push((a, v));
                if failed {
                    // Values may have been given up.
                    self.check(true);
                }
            }
            AllMut => {
                self.tags = vec!["C16", "C10"];
                self.op = "simultaneous mutable references";
                let Some(k) = self.pick_seq() else { return false };
                let mut q = self.seqs.swap_remove(k);
                let g = &mut self.g;
                let m = &mut q.m;
                let mut overlap = None;
                let mut n = 0;
                q.s.all_mut(&mut |mut objs| {
                    n = objs.len();
                    let ex: Vec<(usize, usize)> = objs
                        .iter()
                        .map(|o| {
                            let s = o.see();
                            (s.addr, s.size)
                        })
                        .collect();
                    for i in 0..ex.len() {
                        for j in i + 1..ex.len() {
                            if ex[i].1 > 0 && ex[j].1 > 0 && ex[i].0 < ex[j].0 + ex[j].1 && ex[j].0 < ex[i].0 + ex[i].1 {
                                overlap = Some((i, j));
                            }
                        }
                    }
                    if overlap.is_none() && objs.len() == m.len() {
                        for (o, v) in objs.iter_mut().zip(m.iter_mut()).rev() {
                            if g.r.chance(1, 3) {
                                o.mutate(&mut v.0, g)
                            }
                        }
                    }
                });
                let want = q.m.len();
                self.seqs.push(q);
                if n != want || overlap.is_some() {
                    self.bad(&["C16", "C10", "C01"], format!("{} mutable references for {} elements, overlapping: {:?}", n, want, overlap));
                }
            }
            AtMut => {
                self.tags = vec!["C16", "C12", "C11"];
                self.op = "mutation by offset";
                let Some(k) = self.pick_seq() else { return false };
                if self.seqs[k].m.is_empty() {
                    return false;
                }
                let j = self.g.r.below(self.seqs[k].m.len());
                let q = &mut self.seqs[k];
                let g = &mut self.g;
                let off = q.m[j].1;
                let v = &mut q.m[j].0;
                let mut good = true;
                let mut f = |o: &mut dyn ObjD| {
                    if o.see().val != *v {
                        good = false
                    } else {
                        o.mutate(v, g)
                    }
                };
                let mut r = Ok(());
                if q.s.indexed() && !g_half(&mut self.steps) {
                    r = q.s.at_checked_mut(off, &mut f);
                } else {
                    q.s.at_mut(off, &mut f);
                }
                if !good || r.is_err() {
                    self.bad(&["C12", "C11", "C10", "C02"], format!("access by offset {} yields the wrong element or fails: {:?}", off, r));
                }
                ctx::count("offset_mutations");
            }
            Offsets => {
                self.tags = vec!["C12", "C11"];
                self.op = "access by offset";
                let Some(k) = self.pick_seq() else { return false };
                for (v, off) in &self.seqs[k].m {
                    let s = self.seqs[k].s.at(*off);
                    self.judge("an element accessed by offset", &s, v, &["C12"]);
                }
                if self.seqs[k].s.indexed() {
                    let access = self.g.r.chance(1, 4);
                    self.check_valid(k, access);
                }
            }
            Foreign => {
                self.tags = vec!["C12", "C11"];
                self.op = "offset_of of a foreign object";
                let Some(k) = self.pick_seq() else { return false };
                let mut g = Gen::new(self.g.r.fork());
                g.max_len = 4;
                g.direct = true;
                let v = (self.t.gen)(&mut g);
                // A zero-sized box has no place of its own: it may be where an element is, but not where none is.
                let nothing = self.size(&v) == 0;
                let r = self.seqs[k].s.offset_of_boxed(&v, &mut g);
                if nothing {
                    if let Ok(o) = r {
                        if o >= self.seqs[k].occ {
                            self.bad(&["C12"], format!("offset_of accepts an object that is not in the sequence (offset {} of {})", o, self.seqs[k].occ));
                        }
                    }
                    ctx::count("foreign_zero_sized");
                    return true;
                }
                if let Ok(o) = r {
                    self.bad(&["C12"], format!("offset_of accepts an object that is not in the sequence (offset {})", o));
                }
                let other = self.g.r.below(self.seqs.len());
                if other != k {
                    let n = self.seqs[other].m.len();
                    if n > 0 {
                        let j = self.g.r.below(n);
                        if self.size(&self.seqs[other].m[j].0) > 0 {
                            let r = self.seqs[k].s.offset_of_foreign(&*self.seqs[other].s, j);
                            if let Some(Ok(o)) = r {
                                self.bad(&["C12"], format!("offset_of accepts an element of another sequence (offset {})", o));
                            }
                        }
                    }
                }
            }
            Take | TakeAll | Forget => {
                self.tags = vec!["C14"];
                self.op = "take_elems";
                return self.take(op);
            }
            SeqClone => {
                self.tags = vec!["C15", "C10"];
                self.op = "clone of an element into a sequence";
                let Some(k) = self.pick_seq() else { return false };
                if self.seqs[k].m.is_empty() || self.seqs.len() < 2 || !self.t.can_clone {
                    return false;
                }
                let j = self.g.r.below(self.seqs[k].m.len());
                let copy = self.t.can_copy && self.g.r.chance(1, 2);
                let src = self.seqs.swap_remove(k);
                let d = self.g.r.below(self.seqs.len());
                if self.seqs[d].m.len() < self.max_elems {
                    let c0 = tok::counts();
                    if src.s.clone_elem_into(j, copy, &mut *self.seqs[d].s) {
                        let v = src.m[j].0.clone();
                        let cl = tok::counts().cloned - c0.cloned;
                        let want = if copy { 0 } else { (self.t.events)(&v) as u64 };
                        if cl != want {
                            self.bad(&["C15"], format!("Clone was called {} times for {} values", cl, want));
                        }
                        self.note_push(d, v);
                    }
                }
                self.seqs.push(src);
            }
            Ctl => {
                self.tags = vec!["C17", "C16"];
                self.op = "try_set_layout_controllers";
                if !self.t.has_ctl {
                    return false;
                }
                galloc::mark();
                let r = if !self.boxes.is_empty() && self.g.r.chance(1, 2) {
                    let i = self.g.r.below(self.boxes.len());
                    let (b, v) = &mut self.boxes[i];
                    b.ctl(v, &mut self.g)
                } else if !self.owns.is_empty() && self.g.r.chance(1, 2) {
                    let i = self.g.r.below(self.owns.len());
                    let (b, v) = &mut self.owns[i];
                    b.ctl(v, &mut self.g)
                } else {
                    let Some(k) = self.pick_seq() else { return false };
                    if self.seqs[k].m.is_empty() {
                        return false;
                    }
                    let j = self.g.r.below(self.seqs[k].m.len());
                    let q = &mut self.seqs[k];
                    let g = &mut self.g;
                    let off = q.m[j].1;
                    let v = &mut q.m[j].0;
                    let mut out = crate::spec::Ctl::None;
                    q.s.at_mut(off, &mut |o| out = o.ctl(v, g));
                    out
                };
                self.no_events("replacing layout controllers");
                return self.judge_ctl(r);
            }
            Panicking => {
                let ok = self.panicking();
                if !ok {
                    return false;
                }
                self.hash = mix(self.hash, 77);
                self.check(true);
                return true;
            }
            Huge => {
                self.tags = vec!["C08"];
                self.op = "an impossible size";
                let v0 = self.g.max_len;
                self.g.max_len = 4;
                let r = match self.g.r.below(3) {
                    0 => (self.t.huge_box)(&mut self.g),
                    1 => {
                        let n0 = self.bump.allocated_bytes();
                        let r = (self.t.huge_arena)(&mut self.g, self.bump);
                        if self.bump.allocated_bytes() != n0 {
                            self.arena_chunks += 1;
                        }
                        r
                    }
                    _ => {
                        let k = self.seq_or_new();
                        self.seqs[k].s.push_huge(&mut self.g)
                    }
                };
                self.g.max_len = v0;
                match r {
                    None => return false,
                    Some(Err(Caught::Panic(_))) => ctx::count("huge_refused"),
                    Some(Err(Caught::Planned)) => {}
                    Some(Ok(())) => self.bad(&["C08", "C01"], "an object that cannot exist was constructed".to_string()),
                }
            }
        }
        true
    }
    pub fn judge_ctl(&mut self, r: crate::spec::Ctl) -> bool {
        match r {
            crate::spec::Ctl::None => false,
            crate::spec::Ctl::Done { ok, want } => {
                if ok != want {
                    self.bad(&["C17", "C18"], format!("replacing the controlling fields {} although the array lengths {}", if ok { "succeeded" } else { "failed" }, if want { "stay the same" } else { "change" }));
                }
                ctx::count(if ok { "ctl_accepted" } else { "ctl_refused" });
                true
            }
        }
    }

    fn pick_how(&mut self, n: usize) -> (IterHow, usize, usize) {
        match self.g.r.below(3) {
            0 => (IterHow::All, 0, n),
            1 => {
                let l = *self.g.r.pick(&[0, 1, 2, 3, n, n + 1, n + 5, usize::MAX]);
                (IterHow::Limited(l), 0, l.min(n))
            }
            _ => {
                let k = self.g.r.below(n + 2);
                let left = n.saturating_sub(k);
                let l = *self.g.r.pick(&[0, 1, 2, left, left + 1, n, usize::MAX]);
                (IterHow::AdvanceLimited(k, l), k.min(n), l.min(left))
            }
        }
    }

    fn take(&mut self, op: Op) -> bool {
        let Some(k) = self.pick_seq() else { return false };
        let mut q = self.seqs.swap_remove(k);
        let m = std::mem::take(&mut q.m);
        let n = m.len();
        let stop = match op {
            TakeAll => n,
            _ => self.g.r.below(n + 2).min(n),
        };
        ctx::count("takes");
        q.occ = 0;
        let mut held: Vec<Val> = Vec::new();
        let mut leaked = 0usize;
        let mut mapped = m.into_iter();
        let me = &mut *self;
        let mut done = 0usize;
        let mut one = |t: &mut dyn TakeD, mapped: &mut std::vec::IntoIter<(Val, usize)>, me: &mut World<'b>| {
            let left = n - done;
            let h = t.hint();
            if h != (left, Some(left), left) {
                me.bad(&["C14", "C10"], format!("taking reports {:?} with {} elements left", h, left));
            }
            let got = t.next();
            let want = mapped.next();
            if got != want.is_some() {
                me.bad(&["C14"], format!("taking yields {} when {} elements are left", got, left));
                return false;
            }
            let Some((mut v, _)) = want else { return false };
            done += 1;
            let s = t.see().unwrap();
            me.judge("a taken element", &s, &v, &["C14"]);
            if ctx::poisoned() {
                return false;
            }
            if me.g.r.chance(1, 5) {
                t.mutate(&mut v, &mut me.g);
            }
            match me.g.r.below(9) {
                0 if me.boxes.len() < me.max_objs => {
                    galloc::mark();
                    let b = t.to_box();
                    me.one_alloc("a box from a taken element", &v, false);
                    me.boxes.push((b, v));
                }
                1 if !me.seqs.is_empty() => {
                    let d = me.g.r.below(me.seqs.len());
                    if me.seqs[d].m.len() < me.max_elems {
                        let mut s2 = me.seqs.swap_remove(d);
                        t.to_seq(&mut *s2.s);
                        me.seqs.push(s2);
                        let l = me.seqs.len() - 1;
                        me.note_push(l, v);
                    } else {
                        t.drop_it();
                    }
                }
                2 if me.owns.len() < me.max_objs => {
                    galloc::mark();
                    let n0 = me.bump.allocated_bytes();
                    let o = t.to_arena(me.bump);
                    me.arena_events(n0);
                    me.owns.push((o, v));
                }
                3 => {
                    let c0 = tok::counts();
                    if let Some(s) = t.leak_it() {
                        me.judge("a leaked element", &s, &v, &["C14", "C21"]);
                    }
                    if tok::counts().dropped != c0.dropped {
                        me.bad(&["C21", "C14", "C03"], "leak runs destructors".to_string());
                    }
                    leaked += (me.t.toks)(&v);
                }
                4 => {
                    let a = s.addr;
                    let mut p = 0;
                    t.raw_it(&mut |x| p = x);
                    let s2 = t.see();
                    if p != a || s2.map(|s| s.addr) != Some(a) {
                        me.bad(&["C21"], "the raw round trip moved the element".to_string());
                    }
                    t.drop_it();
                }
                5 if me.t.can_clone && me.boxes.len() < me.max_objs => {
                    if let Some(b) = t.clone_to_box() {
                        me.boxes.push((b, v));
                    }
                    t.drop_it();
                }
                6 | 7 => {
                    t.hold();
                    held.push(v);
                }
                _ => {
                    let c0 = tok::counts();
                    t.drop_it();
                    let d = tok::counts().dropped - c0.dropped;
                    if d != (me.t.toks)(&v) as u64 {
                        me.bad(&["C03", "C14"], format!("dropping a taken element dropped {} user values instead of {}", d, (me.t.toks)(&v)));
                    }
                }
            }
            for (a, b) in t.held().iter().zip(held.iter()) {
                me.judge("an element held during taking", a, b, &["C14"]);
            }
            true
        };
        if op == Take && me.g.r.chance(1, 8) {
            me.op = "counting taken elements";
            let c0 = tok::counts();
            let c = q.s.take_count(stop);
            let d = (tok::counts().dropped - c0.dropped) as usize;
            let want: usize = mapped.by_ref().map(|x| (me.t.toks)(&x.0)).sum();
            if c != n - stop {
                me.bad(&["C14", "C10"], format!("{} elements are counted instead of {}", c, n - stop));
            }
            if d != want {
                me.bad(&["C14", "C03"], format!("counting taken elements dropped {} values instead of {}", d, want));
            }
            ctx::count("take_counts");
        } else if op == Forget {
            me.op = "mem::forget of the taking iterator";
            q.s.take_forget(stop, &mut |t| {
                if !ctx::poisoned() {
                    one(t, &mut mapped, me);
                }
            });
        } else {
            q.s.take(&mut |t| {
                for _ in 0..stop {
                    if ctx::poisoned() || !one(t, &mut mapped, me) {
                        break;
                    }
                }
                if stop == n && !ctx::poisoned() {
                    if t.next() || t.hint() != (0, Some(0), 0) {
                        me.bad(&["C14", "C10"], "taking yields more elements than there were".to_string());
                    }
                }
            });
        }
        if op == Forget {
            // Held elements were dropped; the rest is given up.
            for (v, _) in mapped {
                leaked += (self.t.toks)(&v);
            }
        }
        self.leaked += leaked as i64;
        self.hash = mix(self.hash, 1000 + stop as u64);
        self.seqs.push(q);
        true
    }

    /// An operation during which user code panics.
    fn panicking(&mut self) -> bool {
        let kind = *self.g.r.pick(&[tok::CREATE, tok::CREATE, tok::CLONE, tok::DROP, tok::ITER, tok::DEFAULT]);
        let n = self.g.r.below(12) as i64 / 2;
        let what = self.g.r.below(9);
        self.faulty(Fault::User(kind, n), what)
    }
    /// An operation during which the n-th allocation of the library fails.
    pub fn alloc_failing(&mut self, n: i64, what: usize) -> bool {
        self.faulty(Fault::Alloc(n), what)
    }
    fn faulty(&mut self, fault: Fault, what: usize) -> bool {
        let kind = match fault {
            Fault::User(k, _) => k,
            Fault::Alloc(_) => 0,
        };
        let alloc = matches!(fault, Fault::Alloc(_));
        let n = match fault {
            Fault::User(_, n) | Fault::Alloc(n) => n,
        };
        self.tags = if alloc { vec!["C09"] } else { vec!["C04"] };
        let failed0 = galloc::totals().failed;
        ctx::trace(|| format!("fault {:?} in operation {}", fault, what));
        let fired = |r: &Result<(), Caught>, me: &Self| -> bool {
            tok::clear_plan();
            galloc::fail_at(-1);
            if alloc {
                let hit = galloc::totals().failed != failed0;
                return match r {
                    Ok(()) => {
                        // (The arena asks for a smaller chunk instead.)
                        if hit && what != 8 {
                            me.bad(&["C09"], "a failed allocation was not reported".to_string());
                        }
                        false
                    }
                    Err(Caught::Panic(_)) if hit => {
                        ctx::count("alloc_failure_panics");
                        true
                    }
                    Err(e) => {
                        me.bad(&["C09"], format!("unexpected panic: {:?}", e));
                        true
                    }
                };
            }
            match r {
                Ok(()) => {
                    if tok::fired() {
                        // Something swallowed the panic.
                        me.bad(&["C04"], "a panic in user code did not propagate".to_string());
                    }
                    false
                }
                Err(Caught::Planned) => {
                    ctx::count("panics_in_user_code");
                    true
                }
                Err(Caught::Panic(m)) => {
                    me.bad(&["C04"], format!("unexpected panic: {}", m));
                    true
                }
            }
        };
        match what {
            0 | 1 => {
                self.op = "a push during which user code panics";
                let k = self.seq_or_new();
                if self.seqs[k].m.len() >= self.max_elems {
                    return false;
                }
                let v = self.gen();
                let mut q = self.seqs.swap_remove(k);
                let g = &mut self.g;
                let d0 = g.direct;
                g.direct = what == 0;
                let done0 = inits_done();
                let r = ctx::catch(|| q.s.push(&v, g, &mut || fault.arm(0)));
                g.direct = d0;
                let completed = inits_done() - done0;
                self.seqs.push(q);
                let k = self.seqs.len() - 1;
                let p = fired(&r, self);
                if !p || completed > 0 && kind == tok::DROP && self.seqs[k].s.len() > self.seqs[k].m.len() {
                    // Completed (a destructor of a temporary may still have panicked afterwards).
                    self.note_push(k, v);
                }
            }
            2 => {
                self.op = "an extend during which user code panics";
                let k = self.seq_or_new();
                let cnt = self.g.r.range(1, 6);
                if self.seqs[k].m.len() + cnt > self.max_elems {
                    return false;
                }
                let vs: Vec<Val> = (0..cnt).map(|_| self.gen()).collect();
                let mut q = self.seqs.swap_remove(k);
                let g = &mut self.g;
                let done0 = std::cell::Cell::new(0);
                let r = ctx::catch(|| {
                    q.s.extend(&vs, g, cnt, &mut || {
                        done0.set(inits_done());
                        fault.arm(0)
                    })
                });
                let completed = (inits_done() - done0.get()) as usize;
                let len = q.s.len();
                let before = q.m.len();
                self.seqs.push(q);
                let p = fired(&r, self);
                let k = self.seqs.len() - 1;
                let want = if p { completed } else { cnt };
                let added = len.wrapping_sub(before);
                let lenient = p && kind == tok::DROP && added + 1 == completed;
                if added != want && !lenient {
                    self.bad(&["C04", "C10"], format!("{} elements were added when {} were completed", added as isize, want));
                    return true;
                }
                for v in vs.into_iter().take(added) {
                    self.note_push(k, v);
                }
            }
            3 => {
                self.op = "a collect during which user code panics";
                let cnt = self.g.r.range(1, 6);
                let vs: Vec<Val> = (0..cnt).map(|_| self.gen()).collect();
                if self.seqs.len() >= 3 {
                    return false;
                }
                fault.arm(3);
                let idx = self.g.r.chance(1, 2);
                let t = self.t;
                let g = &mut self.g;
                let mut s = None;
                let r = ctx::catch(|| s = Some((t.collect)(idx, &vs, g, cnt)));
                g.depth = 0;
                if !fired(&r, self) {
                    let Some(s) = s else { return false };
                    self.seqs.push(SeqM { s, m: Vec::new(), occ: 0, cap: 0 });
                    let k = self.seqs.len() - 1;
                    for v in vs {
                        self.note_push(k, v);
                    }
                }
            }
            4 => {
                self.op = "VBox::new during which user code panics";
                let v = self.gen();
                let t = self.t;
                let g = &mut self.g;
                let mut b = None;
                let r = ctx::catch(|| b = Some((t.new_box)(&v, g, &mut || fault.arm(0))));
                self.g.depth = 0;
                if !fired(&r, self) {
                    if let Some(b) = b {
                        self.boxes.push((b, v));
                    }
                }
            }
            5 => {
                self.op = "a clone during which user code panics";
                if self.boxes.is_empty() || !self.t.can_clone {
                    return false;
                }
                let i = self.g.r.below(self.boxes.len());
                if alloc { fault.arm(0) } else { tok::plan(tok::CLONE, n) }
                let how = self.g.r.below(2);
                let b = &self.boxes[i].0;
                let mut out = None;
                let r = ctx::catch(|| out = if how == 0 { b.bclone() } else { b.vclone(false) });
                if !fired(&r, self) {
                    if let Some(b) = out {
                        let v = self.boxes[i].1.clone();
                        self.boxes.push((b, v));
                    }
                }
            }
            6 => {
                self.op = "a drop during which user code panics";
                if alloc { return false }
                tok::plan(tok::DROP, n);
                let r = match self.g.r.below(3) {
                    0 if !self.boxes.is_empty() => {
                        let (b, _) = self.boxes.swap_remove(0);
                        ctx::catch(|| lib(|| drop(b)))
                    }
                    1 if !self.owns.is_empty() => {
                        let (b, _) = self.owns.swap_remove(0);
                        ctx::catch(|| lib(|| drop(b)))
                    }
                    _ => {
                        let Some(k) = self.pick_seq() else {
                            tok::clear_plan();
                            return false;
                        };
                        let q = self.seqs.swap_remove(k);
                        ctx::catch(|| lib(|| drop(q.s)))
                    }
                };
                fired(&r, self);
            }
            7 => {
                self.op = "taking during which user code panics";
                if alloc { return false }
                let Some(k) = self.pick_seq() else { return false };
                let mut q = self.seqs.swap_remove(k);
                tok::plan(tok::DROP, n);
                let adv = self.g.r.below(q.m.len() + 1);
                let r = ctx::catch(|| {
                    q.s.take(&mut |t| {
                        for _ in 0..adv {
                            t.next();
                        }
                    })
                });
                q.m.clear();
                q.occ = 0;
                self.seqs.push(q);
                fired(&r, self);
            }
            9 | 10 | 11 if alloc => {
                // An existing object is moved into a sequence that must grow.
                self.op = "moving an object into a sequence";
                let k = self.seq_or_new();
                let mut q = self.seqs.swap_remove(k);
                let mut moved = None;
                let r = match what {
                    9 if !self.boxes.is_empty() => {
                        let (b, v) = self.boxes.swap_remove(0);
                        moved = Some(v);
                        fault.arm(0);
                        ctx::catch(|| b.into_seq(&mut *q.s))
                    }
                    10 if !self.owns.is_empty() => {
                        let (b, v) = self.owns.swap_remove(0);
                        moved = Some(v);
                        fault.arm(0);
                        ctx::catch(|| b.into_seq(&mut *q.s))
                    }
                    11 if !self.seqs.is_empty() && !self.seqs[0].m.is_empty() => {
                        let o = &mut self.seqs[0];
                        let (v, _) = o.m.remove(0);
                        o.m.clear();
                        o.occ = 0;
                        moved = Some(v);
                        ctx::catch(|| {
                            o.s.take(&mut |t| {
                                t.next();
                                fault.arm(0);
                                t.to_seq(&mut *q.s);
                                galloc::fail_at(-1);
                            })
                        })
                    }
                    _ => Ok(()),
                };
                self.seqs.push(q);
                if moved.is_none() {
                    galloc::fail_at(-1);
                    return false;
                }
                if !fired(&r, self) {
                    let k = self.seqs.len() - 1;
                    self.note_push(k, moved.unwrap());
                }
            }
            _ => {
                self.op = "an arena construction during which user code panics";
                if self.owns.len() >= self.max_objs {
                    return false;
                }
                let v = self.gen();
                let t = self.t;
                let bump = self.bump;
                let n0 = bump.allocated_bytes();
                let g = &mut self.g;
                g.direct = true;
                let extra = self.g.r.below(3) as i64;
                fault.arm(extra);
                let g = &mut self.g;
                let mut b = None;
                let r = ctx::catch(|| b = Some((t.new_arena)(&v, g, bump)));
                self.g.direct = false;
                self.g.depth = 0;
                if bump.allocated_bytes() != n0 {
                    self.arena_chunks += 1;
                }
                if !fired(&r, self) {
                    if let Some(b) = b {
                        self.owns.push((b, v));
                    }
                }
            }
        }
        tok::clear_plan();
        galloc::fail_at(-1);
        true
    }

    /// Drops everything, in random order, checking after each; then nothing may be left.
    pub fn finish(mut self) -> u64 {
        self.tags = vec!["C03", "C07"];
        self.op = "the final drops";
        while !ctx::poisoned() {
            let total = self.boxes.len() + self.owns.len() + self.seqs.len() + self.raws.len();
            if total == 0 {
                break;
            }
            let mut k = self.g.r.below(total);
            if k < self.boxes.len() {
                let b = self.boxes.swap_remove(k);
                lib(|| drop(b.0));
            } else {
                k -= self.boxes.len();
                if k < self.owns.len() {
                    let b = self.owns.swap_remove(k);
                    lib(|| drop(b.0));
                } else {
                    k -= self.owns.len();
                    if k < self.seqs.len() {
                        let b = self.seqs.swap_remove(k);
                        lib(|| drop(b.s));
                    } else {
                        let r = self.raws.remove(0);
                        let b = (r.back)();
                        self.boxes.push((b, r.val));
                        continue;
                    }
                }
            }
            if total <= 3 || self.g.r.chance(1, 3) {
                self.check(false);
            }
        }
        self.op = "the last drop";
        self.check(false);
        let h = self.hash;
        let give_up = ctx::poisoned();
        if give_up {
            // Not judged any more, and possibly broken: do not touch it.
            std::mem::forget(self);
        } else {
            for (o, v) in std::mem::take(&mut self.leaks) {
                let _ = (o, v);
            }
            ctx::add("steps", self.steps);
        }
        h
    }
}
fn g_half(steps: &mut u64) -> bool {
    *steps = steps.wrapping_add(1);
    *steps & 1 == 0
}

/// One random history.
pub fn history(t: TypeOps, r: &mut crate::rng::Rng, weights: &dyn Fn(Op) -> u32, ops: usize, max_len: usize, max_objs: usize, max_elems: usize) {
    let mut g = Gen::new(r.fork());
    g.max_len = max_len;
    let bump = Bump::new();
    let w: Vec<u32> = OPS.iter().map(|o| weights(*o)).collect();
    let mut world = World::new(t, g, &bump);
    world.max_objs = max_objs;
    world.max_elems = max_elems;
    let mut done = 0;
    for _ in 0..ops {
        if ctx::poisoned() {
            break;
        }
        let op = OPS[r.weighted(&w)];
        if world.step(op) {
            ctx::trace(|| format!("{:?}", op));
            world.hash = mix(world.hash, op as u64 + 10);
            world.check(op == Op::Panicking);
            ctx::count(op_name(op));
            done += 1;
        }
    }
    let name = world.name.clone();
    let objs = world.boxes.len() + world.owns.len() + world.seqs.iter().map(|s| s.m.len()).sum::<usize>();
    let h = world.finish();
    if done > 0 {
        let th = name.bytes().fold(0u64, |h, b| mix(h, b as u64));
        ctx::distinct(mix(h, th));
        ctx::sample(|| format!("{}: {} operations, {} objects at the end", name, done, objs));
    }
    // The arena's chunks belong to the library's scope.
    lib(|| drop(bump));
    galloc::flush_quarantine();
    ctx::poll();
}
pub fn op_name(op: Op) -> &'static str {
    match op {
        BoxNew => "op.box_new",
        BoxMutate => "op.box_mutate",
        BoxClone => "op.box_clone",
        BoxDrop => "op.box_drop",
        RawOut => "op.into_raw",
        RawIn => "op.from_raw",
        RawTrip => "op.raw_trip",
        BoxToSeq => "op.box_to_seq",
        BoxToArena => "op.box_to_arena",
        BoxToBox => "op.box_to_box",
        BoxCloneTo => "op.box_clone_to",
        ArenaNew => "op.arena_new",
        ArenaMutate => "op.arena_mutate",
        ArenaDrop => "op.arena_drop",
        ArenaLeak => "op.arena_leak",
        ArenaRaw => "op.arena_raw",
        ArenaTo => "op.arena_to",
        ArenaClone => "op.arena_clone",
        SeqNew => "op.seq_new",
        SeqDrop => "op.seq_drop",
        Push => "op.push",
        Extend => "op.extend",
        Collect => "op.collect",
        FromMacro => "op.seq_macro",
        Iter => "op.iter",
        IterMut => "op.iter_mut",
        AllMut => "op.all_mut",
        AtMut => "op.at_mut",
        Offsets => "op.offsets",
        Foreign => "op.offset_of_foreign",
        Take => "op.take",
        Forget => "op.take_forget",
        SeqClone => "op.seq_clone",
        Ctl => "op.ctl",
        Panicking => "op.panicking",
        Huge => "op.huge",
        TakeAll => "op.take_all",
        Protocol => "op.iterator_protocol",
        CloneFrom => "op.clone_from",
    }
}
