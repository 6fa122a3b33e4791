//! Monitoring global allocator. Every block carries a header and canaries; blocks are tagged with the
//! scope (library or harness) that requested them; freed library blocks are poisoned and quarantined;
//! `realloc` always moves. Errors are recorded (never reported from inside the allocator) and polled
//! by the harness after each operation.
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scope {
    Harness,
    Lib,
}
thread_local! {
    static SCOPE: Cell<Scope> = const { Cell::new(Scope::Harness) };
}
pub struct ScopeGuard(Scope);
impl Drop for ScopeGuard {
    fn drop(&mut self) {
        let _ = SCOPE.try_with(|s| s.set(self.0));
    }
}
#[inline]
pub fn enter(to: Scope) -> ScopeGuard {
    ScopeGuard(SCOPE.with(|s| s.replace(to)))
}
pub fn scope() -> Scope {
    SCOPE.try_with(|s| s.get()).unwrap_or(Scope::Harness)
}
/// Runs library code: its allocations are attributed to the library.
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _g = enter(Scope::Lib);
    f()
}
/// Runs harness (user) code called back from the library.
#[inline]
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    let _g = enter(Scope::Harness);
    f()
}

pub const ON: bool = cfg!(feature = "galloc");

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EvKind {
    Alloc,
    Free,
    Realloc,
}
#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub kind: EvKind,
    pub ptr: usize,
    pub size: usize,
    pub align: usize,
    pub old_size: usize,
}
#[derive(Clone, Copy, Debug)]
pub struct GErr {
    pub what: &'static str,
    pub ptr: usize,
    pub a: usize,
    pub b: usize,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Totals {
    pub allocs: u64,
    pub frees: u64,
    pub reallocs: u64,
    pub bytes: u64,
    pub live_blocks: u64,
    pub live_bytes: u64,
    pub failed: u64,
    /// Calls that ask for a very large block, whatever their outcome.
    pub attempts: u64,
}

#[cfg(feature = "galloc")]
mod imp {
    use super::*;
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::UnsafeCell;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

    const HDR: usize = 96;
    const BACK: usize = 32;
    const MAGIC: u64 = 0x5641_524c_454e_4d4f;
    const DEAD: u64 = 0xDEAD_BEEF_0BAD_F00D;
    const CANARY: u8 = 0xC9;
    const LIMIT: usize = 1 << (if usize::BITS >= 64 { 33 } else { 28 });
    /// Nothing of this size or more is granted.
    static GRANT: AtomicUsize = AtomicUsize::new(LIMIT);
    /// Larger blocks are neither filled nor kept after they are freed, and move by remapping: their
    /// pages are only used where somebody writes.
    const VAST: usize = 64 << 20;
    const QMAX: usize = 512;
    const QBYTES: usize = 8 << 20;
    const NEV: usize = 256;

    #[repr(C)]
    struct Head {
        magic: u64,
        size: usize,
        align: usize,
        lib: usize,
        prev: *mut Head,
        next: *mut Head,
        front: usize,
        pad: [u8; 40],
    }

    struct State {
        live: *mut Head,
        t: Totals,
        err: Option<GErr>,
        evs: [Ev; NEV],
        nev: usize,
        q: [*mut Head; QMAX],
        qn: usize,
        qi: usize,
        qbytes: usize,
        fail_at: i64,
    }
    struct Cellx(UnsafeCell<State>);
    unsafe impl Sync for Cellx {}
    static ST: Cellx = Cellx(UnsafeCell::new(State {
        live: std::ptr::null_mut(),
        t: Totals { allocs: 0, frees: 0, reallocs: 0, bytes: 0, live_blocks: 0, live_bytes: 0, failed: 0, attempts: 0 },
        err: None,
        evs: [Ev { kind: EvKind::Alloc, ptr: 0, size: 0, align: 0, old_size: 0 }; NEV],
        nev: 0,
        q: [std::ptr::null_mut(); QMAX],
        qn: 0,
        qi: 0,
        qbytes: 0,
        fail_at: -1,
    }));
    static LOCK: AtomicBool = AtomicBool::new(false);

    fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
        while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let r = f(unsafe { &mut *ST.0.get() });
        LOCK.store(false, Ordering::Release);
        r
    }
    fn seterr(s: &mut State, what: &'static str, ptr: usize, a: usize, b: usize) {
        if s.err.is_none() {
            s.err = Some(GErr { what, ptr, a, b });
        }
    }
    fn event(s: &mut State, e: Ev) {
        if s.nev < NEV {
            s.evs[s.nev] = e;
        }
        s.nev += 1;
    }

    unsafe fn new_block(layout: Layout, lib: bool, poison: bool, zero: bool) -> *mut u8 {
        let align = layout.align().max(16);
        let front = (HDR + align - 1) & !(align - 1);
        let total = match front.checked_add(layout.size()).and_then(|x| x.checked_add(BACK)) {
            Some(t) if layout.size() < GRANT.load(Ordering::Relaxed) => t,
            _ => return std::ptr::null_mut(),
        };
        let l = Layout::from_size_align_unchecked(total, align);
        let base = if zero { System.alloc_zeroed(l) } else { System.alloc(l) };
        if base.is_null() {
            return base;
        }
        let p = base.add(front);
        let h = p.sub(HDR) as *mut Head;
        (*h).magic = MAGIC;
        (*h).size = layout.size();
        (*h).align = layout.align();
        (*h).lib = lib as usize;
        (*h).front = front;
        (*h).prev = std::ptr::null_mut();
        (*h).next = std::ptr::null_mut();
        (*h).pad = [CANARY; 40];
        std::ptr::write_bytes(p.add(layout.size()), CANARY, BACK);
        if poison && !zero && layout.size() <= VAST {
            std::ptr::write_bytes(p, 0xA5, layout.size());
        }
        p
    }
    unsafe fn canaries_ok(p: *mut u8, h: *mut Head) -> bool {
        (*h).pad.iter().all(|b| *b == CANARY)
            && std::slice::from_raw_parts(p.add((*h).size), BACK).iter().all(|b| *b == CANARY)
    }
    unsafe fn release(h: *mut Head) {
        let p = (h as *mut u8).add(HDR);
        let front = (*h).front;
        let total = front + (*h).size + BACK;
        let align = (*h).align.max(16);
        System.dealloc(p.sub(front), Layout::from_size_align_unchecked(total, align));
    }
    unsafe fn link(s: &mut State, h: *mut Head) {
        (*h).next = s.live;
        if !s.live.is_null() {
            (*s.live).prev = h;
        }
        s.live = h;
        s.t.live_blocks += 1;
        s.t.live_bytes += (*h).size as u64;
    }
    unsafe fn unlink(s: &mut State, h: *mut Head) {
        if (*h).prev.is_null() {
            s.live = (*h).next;
        } else {
            (*(*h).prev).next = (*h).next;
        }
        if !(*h).next.is_null() {
            (*(*h).next).prev = (*h).prev;
        }
        s.t.live_blocks -= 1;
        s.t.live_bytes -= (*h).size as u64;
    }
    unsafe fn quarantine(s: &mut State, h: *mut Head) {
        let p = (h as *mut u8).add(HDR);
        if (*h).size > VAST {
            release(h);
            return;
        }
        std::ptr::write_bytes(p, 0x5D, (*h).size);
        (*h).magic = DEAD;
        while s.qn == QMAX || (s.qn > 0 && s.qbytes + (*h).size > QBYTES) {
            evict(s);
        }
        s.q[(s.qi + s.qn) % QMAX] = h;
        s.qn += 1;
        s.qbytes += (*h).size;
    }
    unsafe fn evict(s: &mut State) {
        let h = s.q[s.qi];
        s.qi = (s.qi + 1) % QMAX;
        s.qn -= 1;
        s.qbytes -= (*h).size;
        verify_dead(s, h);
        release(h);
    }
    unsafe fn verify_dead(s: &mut State, h: *mut Head) {
        let p = (h as *mut u8).add(HDR);
        if !std::slice::from_raw_parts(p, (*h).size).iter().all(|b| *b == 0x5D) || !canaries_ok(p, h) {
            seterr(s, "write to freed library block", p as usize, (*h).size, 0);
        }
    }

    unsafe fn fresh(layout: Layout, zero: bool) -> *mut u8 {
        let lib = scope() == Scope::Lib;
        if !lib {
            return new_block(layout, false, false, zero);
        }
        with(|s| {
            if layout.size() == 0 {
                seterr(s, "zero-sized allocation request", 0, 0, layout.align());
            }
            s.t.attempts += (layout.size() > 1 << 30) as u64;
            if s.fail_at >= 0 {
                s.fail_at -= 1;
                if s.fail_at < 0 {
                    s.t.failed += 1;
                    return std::ptr::null_mut();
                }
            }
            let p = new_block(layout, true, true, zero);
            if !p.is_null() {
                link(s, p.sub(HDR) as *mut Head);
                s.t.allocs += 1;
                s.t.bytes += layout.size() as u64;
                event(s, Ev { kind: EvKind::Alloc, ptr: p as usize, size: layout.size(), align: layout.align(), old_size: 0 });
            }
            p
        })
    }

    pub struct G;
    unsafe impl GlobalAlloc for G {
        unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
            fresh(layout, false)
        }
        unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
            fresh(layout, true)
        }
        unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
            let h = p.sub(HDR) as *mut Head;
            let in_lib = scope() == Scope::Lib;
            if !in_lib && (*h).magic == MAGIC && (*h).lib == 0 {
                if !canaries_ok(p, h) {
                    with(|s| seterr(s, "harness block overrun", p as usize, (*h).size, 0));
                }
                release(h);
                return;
            }
            with(|s| {
                if (*h).magic == DEAD {
                    seterr(s, "double free", p as usize, (*h).size, layout.size());
                    return;
                }
                if (*h).magic != MAGIC {
                    seterr(s, "free of something that is not a block", p as usize, layout.size(), layout.align());
                    return;
                }
                if (*h).size != layout.size() {
                    seterr(s, "free with wrong size", p as usize, (*h).size, layout.size());
                }
                if (*h).align != layout.align() {
                    seterr(s, "free with wrong alignment", p as usize, (*h).align, layout.align());
                }
                if !canaries_ok(p, h) {
                    seterr(s, "write outside the bounds of a block", p as usize, (*h).size, 0);
                }
                if (*h).lib == 1 {
                    unlink(s, h);
                    s.t.frees += 1;
                    event(s, Ev { kind: EvKind::Free, ptr: p as usize, size: (*h).size, align: (*h).align, old_size: 0 });
                    quarantine(s, h);
                } else {
                    release(h);
                }
            })
        }
        unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
            let h = p.sub(HDR) as *mut Head;
            let in_lib = scope() == Scope::Lib;
            if !in_lib && (*h).magic == MAGIC && (*h).lib == 0 {
                let n = new_block(Layout::from_size_align_unchecked(new_size, layout.align()), false, false, false);
                if !n.is_null() {
                    std::ptr::copy_nonoverlapping(p, n, layout.size().min(new_size));
                    if !canaries_ok(p, h) {
                        with(|s| seterr(s, "harness block overrun", p as usize, (*h).size, 0));
                    }
                    release(h);
                }
                return n;
            }
            with(|s| {
                if (*h).magic != MAGIC {
                    seterr(s, "realloc of something that is not a live block", p as usize, layout.size(), new_size);
                    return std::ptr::null_mut();
                }
                if new_size == 0 {
                    seterr(s, "zero-sized realloc request", p as usize, layout.size(), 0);
                }
                if (*h).size != layout.size() {
                    seterr(s, "realloc with wrong old size", p as usize, (*h).size, layout.size());
                }
                if (*h).align != layout.align() {
                    seterr(s, "realloc with wrong alignment", p as usize, (*h).align, layout.align());
                }
                if !canaries_ok(p, h) {
                    seterr(s, "write outside the bounds of a block", p as usize, (*h).size, 0);
                }
                s.t.attempts += (new_size > 1 << 30) as u64;
                if s.fail_at >= 0 {
                    s.fail_at -= 1;
                    if s.fail_at < 0 {
                        s.t.failed += 1;
                        return std::ptr::null_mut();
                    }
                }
                let old = (*h).size;
                let lib = (*h).lib == 1;
                if old > VAST && new_size > VAST && new_size < GRANT.load(Ordering::Relaxed) && (*h).align <= 16 {
                    return remap(s, h, new_size);
                }
                let n = new_block(Layout::from_size_align_unchecked(new_size, (*h).align), lib, true, false);
                if n.is_null() {
                    return n;
                }
                std::ptr::copy_nonoverlapping(p, n, old.min(new_size));
                if lib {
                    unlink(s, h);
                    quarantine(s, h);
                    link(s, n.sub(HDR) as *mut Head);
                    s.t.reallocs += 1;
                    s.t.bytes += new_size as u64;
                    event(s, Ev { kind: EvKind::Realloc, ptr: n as usize, size: new_size, align: layout.align(), old_size: old });
                } else {
                    release(h);
                }
                n
            })
        }
    }

    /// Resizes a vast block by remapping its pages.
    unsafe fn remap(s: &mut State, h: *mut Head, new_size: usize) -> *mut u8 {
        let (old, front, align) = ((*h).size, (*h).front, (*h).align);
        let base = (h as *mut u8).add(HDR).sub(front);
        let lib = (*h).lib == 1;
        let l = Layout::from_size_align_unchecked(front + old + BACK, align.max(16));
        if lib {
            unlink(s, h);
        }
        let n = System.realloc(base, l, front + new_size + BACK);
        let p = if n.is_null() { base.add(front) } else { n.add(front) };
        let h = p.sub(HDR) as *mut Head;
        (*h).prev = std::ptr::null_mut();
        (*h).next = std::ptr::null_mut();
        if !n.is_null() {
            (*h).size = new_size;
            std::ptr::write_bytes(p.add(new_size), CANARY, BACK);
            // What followed the old contents.
            if new_size >= old + BACK {
                std::ptr::write_bytes(p.add(old), 0xA5, BACK);
            }
        }
        if lib {
            link(s, h);
            if !n.is_null() {
                s.t.reallocs += 1;
                s.t.bytes += new_size as u64;
                event(s, Ev { kind: EvKind::Realloc, ptr: p as usize, size: new_size, align, old_size: old });
            }
        }
        if n.is_null() { n } else { p }
    }

    /// The largest block granted from now on (0: the default).
    pub fn grant(n: usize) {
        GRANT.store(if n == 0 { LIMIT } else { n }, Ordering::Relaxed)
    }
    pub fn take_err() -> Option<GErr> {
        with(|s| s.err.take())
    }
    pub fn totals() -> Totals {
        with(|s| s.t)
    }
    /// Clears the event log.
    pub fn mark() {
        with(|s| s.nev = 0)
    }
    /// Events of library blocks since the last `mark` (up to a fixed number), and their count.
    pub fn events() -> (Vec<Ev>, usize) {
        let mut v: Vec<Ev> = Vec::with_capacity(NEV);
        let n = with(|s| {
            for i in 0..s.nev.min(NEV) {
                v.push(s.evs[i]);
            }
            s.nev
        });
        (v, n)
    }
    /// The live library block that contains `addr` (one past the end counts), as (start, size, align).
    pub fn block_of(addr: usize) -> Option<(usize, usize, usize)> {
        with(|s| unsafe {
            let mut h = s.live;
            while !h.is_null() {
                let p = (h as usize) + HDR;
                if addr >= p && addr <= p + (*h).size {
                    return Some((p, (*h).size, (*h).align));
                }
                h = (*h).next;
            }
            None
        })
    }
    /// Checks the canaries of every live library block and the poison of every quarantined one.
    pub fn sweep() {
        with(|s| unsafe {
            let mut h = s.live;
            while !h.is_null() {
                let p = (h as *mut u8).add(HDR);
                if !canaries_ok(p, h) {
                    seterr(s, "write outside the bounds of a block", p as usize, (*h).size, 0);
                }
                h = (*h).next;
            }
            for i in 0..s.qn {
                let h = s.q[(s.qi + i) % QMAX];
                verify_dead(s, h);
            }
        })
    }
    pub fn flush_quarantine() {
        with(|s| unsafe {
            while s.qn > 0 {
                evict(s);
            }
        })
    }
    /// The n-th library allocation from now (0-based) fails; negative: none.
    pub fn fail_at(n: i64) {
        with(|s| s.fail_at = n)
    }
    pub fn fail_pending() -> bool {
        with(|s| s.fail_at >= 0)
    }
}

#[cfg(not(feature = "galloc"))]
mod imp {
    use super::*;
    pub fn take_err() -> Option<GErr> {
        None
    }
    pub fn totals() -> Totals {
        Totals::default()
    }
    pub fn mark() {}
    pub fn grant(_n: usize) {}
    pub fn events() -> (Vec<Ev>, usize) {
        (Vec::new(), 0)
    }
    pub fn block_of(_addr: usize) -> Option<(usize, usize, usize)> {
        None
    }
    pub fn sweep() {}
    pub fn flush_quarantine() {}
    pub fn fail_at(_n: i64) {}
    pub fn fail_pending() -> bool {
        false
    }
}
pub use imp::*;
