//! Tokens: uniquely numbered user values with a registry that sees every creation, clone and drop, and
//! planned panics in user code.
use crate::ctx::Planned;
use crate::galloc::user;
use std::cell::{Cell, RefCell};

struct Reg {
    /// Per id: 0 never, 1 live, 2 dropped; and the value.
    state: Vec<(u8, u64)>,
    live: i64,
    zlive: i64,
    created: u64,
    cloned: u64,
    dropped: u64,
    err: Option<String>,
}
thread_local! {
    static REG: RefCell<Reg> = const { RefCell::new(Reg { state: Vec::new(), live: 0, zlive: 0, created: 0, cloned: 0, dropped: 0, err: None }) };
    static PLAN: Cell<(u8, i64)> = const { Cell::new((0, -1)) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static LEN_READS: Cell<u64> = const { Cell::new(0) };
}
pub const CREATE: u8 = 1;
pub const CLONE: u8 = 2;
pub const DROP: u8 = 3;
pub const ITER: u8 = 4;
pub const DEFAULT: u8 = 5;

fn err(r: &mut Reg, s: String) {
    if r.err.is_none() {
        r.err = Some(s)
    }
}
/// Forgets all tokens (start of a case).
pub fn reset() {
    user(|| {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.state.clear();
            r.state.push((0, 0));
            r.live = 0;
            r.zlive = 0;
            r.err = None;
        })
    });
    clear_plan();
}
pub fn take_err() -> Option<String> {
    REG.with(|r| r.borrow_mut().err.take())
}
/// Number of live tokens (of all kinds).
pub fn live() -> i64 {
    REG.with(|r| {
        let r = r.borrow();
        r.live + r.zlive
    })
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Counts {
    pub created: u64,
    pub cloned: u64,
    pub dropped: u64,
}
pub fn counts() -> Counts {
    REG.with(|r| {
        let r = r.borrow();
        Counts { created: r.created, cloned: r.cloned, dropped: r.dropped }
    })
}
/// The next time user code of this kind runs for the (n+1)-th time, it panics.
pub fn plan(kind: u8, n: i64) {
    PLAN.with(|p| p.set((kind, n)));
    FIRED.with(|f| f.set(false));
}
pub fn clear_plan() {
    PLAN.with(|p| p.set((0, -1)));
}
pub fn fired() -> bool {
    FIRED.with(|f| f.get())
}
pub fn tick(kind: u8) {
    PLAN.with(|p| {
        let (k, n) = p.get();
        if k == kind && n >= 0 {
            if n == 0 {
                if !std::thread::panicking() {
                    p.set((0, -1));
                    FIRED.with(|f| f.set(true));
                    user(|| std::panic::panic_any(Planned));
                }
            } else {
                p.set((k, n - 1));
            }
        }
    })
}

fn new_id(val: u64) -> u64 {
    user(|| {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let id = r.state.len() as u64;
            r.state.push((1, val));
            r.live += 1;
            r.created += 1;
            id
        })
    })
}
fn bad(r: &mut Reg, id: u64, what: &str) {
    let s = r.state.get(id as usize).map(|s| s.0);
    let e = match s {
        Some(2) => format!("{} of token {} after it was dropped", what, id),
        _ => format!("{} of something that is not a token (id {:#x})", what, id),
    };
    err(r, e);
}
fn kill(id: u64, ok: bool) {
    user(|| {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let st = r.state.get(id as usize).map(|s| s.0).unwrap_or(0);
            if !ok || st != 1 {
                if st == 2 {
                    err(&mut r, format!("token {} dropped twice", id));
                } else {
                    bad(&mut r, id, "drop");
                }
                return;
            }
            r.state[id as usize].0 = 2;
            r.live -= 1;
            r.dropped += 1;
        })
    })
}
fn look(id: u64, ok: bool) -> u64 {
    user(|| {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            match r.state.get(id as usize) {
                Some((1, v)) if ok => *v,
                _ => {
                    bad(&mut r, id, "use");
                    0xBAD0_BAD0
                }
            }
        })
    })
}
fn set_val(id: u64, val: u64) {
    REG.with(|r| {
        if let Some(s) = r.borrow_mut().state.get_mut(id as usize) {
            s.1 = val
        }
    })
}
fn note_clone() {
    REG.with(|r| r.borrow_mut().cloned += 1)
}

/// A number of a token, of some size and alignment (large enough for the tokens of the longest histories).
trait Id: Copy {
    fn put(n: u64) -> Self;
    fn take(self) -> u64;
}
impl Id for u64 {
    fn put(n: u64) -> u64 {
        n
    }
    fn take(self) -> u64 {
        self
    }
}
impl Id for u32 {
    fn put(n: u64) -> u32 {
        n as u32
    }
    fn take(self) -> u64 {
        self as u64
    }
}
impl Id for [u16; 2] {
    fn put(n: u64) -> [u16; 2] {
        [n as u16, (n >> 16) as u16]
    }
    fn take(self) -> u64 {
        self[0] as u64 | (self[1] as u64) << 16
    }
}

macro_rules! token {
    ($name:ident, $idty:ty, $pad:ty, $padval:expr, $(#[$a:meta])*) => {
        $(#[$a])*
        pub struct $name {
            id: $idty,
            chk: $idty,
            pad: $pad,
        }
        impl $name {
            pub fn new(val: u64) -> Self {
                tick(CREATE);
                Self::raw(val)
            }
            fn raw(val: u64) -> Self {
                let id = new_id(val);
                $name { id: Id::put(id), chk: Id::put(!id), pad: $padval }
            }
            fn ok(&self) -> bool {
                Id::take(self.chk) == Id::take(<$idty as Id>::put(!Id::take(self.id)))
            }
            pub fn val(&self) -> u64 {
                let _ = &self.pad;
                look(Id::take(self.id), self.ok())
            }
            pub fn id(&self) -> u64 {
                Id::take(self.id)
            }
            /// Changes the value in place (the token keeps its identity).
            pub fn poke(&mut self, val: u64) {
                look(Id::take(self.id), self.ok());
                set_val(Id::take(self.id), val)
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                tick(CLONE);
                let v = self.val();
                note_clone();
                Self::raw(v)
            }
        }
        impl Default for $name {
            fn default() -> Self {
                tick(DEFAULT);
                Self::raw(0)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                kill(Id::take(self.id), self.ok());
                tick(DROP);
            }
        }
    };
}
token!(Tok, u64, u64, 0x70_6b, );
token!(TokS, u32, (), (), );
token!(TokH, [u16; 2], u8, 7, );
token!(TokA, u64, [u8; 3], [1, 2, 3], #[repr(align(32))]);

/// Zero-sized token: only counted.
pub struct ZTok(());
impl ZTok {
    pub fn new() -> Self {
        tick(CREATE);
        Self::raw()
    }
    fn raw() -> Self {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.zlive += 1;
            r.created += 1;
        });
        ZTok(())
    }
}
impl Clone for ZTok {
    fn clone(&self) -> Self {
        tick(CLONE);
        note_clone();
        Self::raw()
    }
}
impl Default for ZTok {
    fn default() -> Self {
        tick(DEFAULT);
        Self::raw()
    }
}
impl Drop for ZTok {
    fn drop(&mut self) {
        user(|| {
            REG.with(|r| {
                let mut r = r.borrow_mut();
                r.zlive -= 1;
                r.dropped += 1;
                if r.zlive < 0 {
                    err(&mut r, "zero-sized token dropped more often than created".to_string());
                    r.zlive = 0;
                }
            })
        });
        tick(DROP);
    }
}

/// Creations, clones and defaults are counted (and may panic) as for tokens, but it has no destructor and may
/// therefore vanish silently; it is not `Copy`. Every value has a number of its own.
pub struct Mark {
    id: u64,
    chk: u32,
}
impl Mark {
    pub fn new(val: u64) -> Self {
        tick(CREATE);
        Self::raw(val)
    }
    fn raw(val: u64) -> Self {
        let id = user(|| {
            REG.with(|r| {
                let mut r = r.borrow_mut();
                let id = r.state.len() as u64;
                r.state.push((1, val));
                r.created += 1;
                id
            })
        });
        Mark { id, chk: !id as u32 }
    }
    pub fn val(&self) -> u64 {
        look(self.id, self.chk == !self.id as u32)
    }
}
impl Clone for Mark {
    fn clone(&self) -> Self {
        tick(CLONE);
        let v = self.val();
        note_clone();
        Self::raw(v)
    }
}
impl Default for Mark {
    fn default() -> Self {
        tick(DEFAULT);
        Self::raw(0)
    }
}
/// The same, zero-sized.
pub struct ZMark(());
impl ZMark {
    pub fn new() -> Self {
        tick(CREATE);
        Self::raw()
    }
    fn raw() -> Self {
        REG.with(|r| r.borrow_mut().created += 1);
        ZMark(())
    }
}
impl Clone for ZMark {
    fn clone(&self) -> Self {
        tick(CLONE);
        note_clone();
        Self::raw()
    }
}
impl Default for ZMark {
    fn default() -> Self {
        tick(DEFAULT);
        Self::raw()
    }
}
