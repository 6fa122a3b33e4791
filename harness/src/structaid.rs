//! Helpers for the generated reference semantics of user structs.
use crate::ctx;
use crate::elem::Elem;
use crate::galloc::lib;
use crate::spec::*;
use crate::tok;
use crate::vassert;
use std::mem::{align_of, size_of, size_of_val};

pub const fn max_of(a: &[usize]) -> usize {
    let mut i = 0;
    let mut r = 1;
    while i < a.len() {
        if a[i] > r {
            r = a[i]
        }
        i += 1;
    }
    r
}
/// A value of a controlling field, so that arrays stay small.
pub fn ctl_gen<E: Elem>(g: &mut Gen, int: u8) -> u64 {
    if int == 1 {
        let n = g.len(64);
        return E::norm(n as u64);
    }
    let x = g.r.u64();
    let small = (g.len(40) as u64) | (g.len(40) as u64) << 8;
    match E::NAME {
        "[u8;2]" | "Pair" => E::norm(small),
        "TokLen" => (g.len(60) as u64) | (x & 0xffff) << 16,
        "Option<u8>" => E::norm((g.len(60) as u64) | (x & 0x100)),
        _ => E::norm(x),
    }
}
/// A value near `c`.
thread_local! {
    /// `ctl_near` is only to bring a value into the range of its type.
    static EXACT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn ctl_near<E: Elem>(g: &mut Gen, c: u64) -> u64 {
    if EXACT.with(|e| e.get()) {
        return E::norm(c);
    }
    let x = g.r.u64();
    match g.r.below(8) {
        0 | 1 => c,
        2 => E::norm(c.wrapping_add(1)),
        3 => E::norm(c.wrapping_sub(1)),
        4 => E::norm(c ^ (1 << (x % 20))),
        5 => E::norm(c.wrapping_add((x % 4) << 8)),
        // A multiple of 256 or 65536 further on.
        6 => E::norm(c.wrapping_add(1 << (8 * (1 + x % 6)))),
        _ => E::norm(x),
    }
}
pub fn ctl_candidates(g: &mut Gen, cur: &[u64], near: &dyn Fn(&mut Gen, usize, u64) -> u64, same: &dyn Fn(&[u64]) -> bool) -> Vec<u64> {
    let want_same = g.r.chance(1, 2);
    let mut best = cur.to_vec();
    for _ in 0..12 {
        let mut c = cur.to_vec();
        if c.len() > 1 && g.r.chance(1, 4) {
            // Something is taken from one and given to another, or they change places.
            let i = g.r.below(c.len());
            let j = (i + 1 + g.r.below(c.len() - 1)) % c.len();
            if g.r.chance(1, 2) {
                c.swap(i, j);
            } else {
                let k = if c[i] > 0 { g.r.u64() % c[i].min(8) + 1 } else { 0 };
                c[i] -= k;
                c[j] = c[j].wrapping_add(k);
            }
            EXACT.with(|e| e.set(true));
            for i in 0..c.len() {
                c[i] = near(g, i, c[i]);
            }
            EXACT.with(|e| e.set(false));
        } else {
            for i in 0..c.len() {
                c[i] = near(g, i, c[i]);
            }
        }
        // The lengths must be computable.
        if c.iter().any(|x| *x > u64::MAX / 16) {
            continue;
        }
        best = c;
        if same(&best) == want_same {
            break;
        }
    }
    best
}
/// Runs a request to replace controlling fields. `None`: a destructor panicked.
pub fn ctl_try(g: &mut Gen, f: impl FnOnce() -> bool) -> Option<bool> {
    let armed = g.r.chance(1, 4);
    if armed {
        let n = g.r.below(3) as i64;
        crate::tok::plan(crate::tok::DROP, n);
    }
    let r = ctx::catch(|| lib(f));
    let fired = armed && crate::tok::fired();
    crate::tok::clear_plan();
    match r {
        Ok(ok) => {
            if fired {
                ctx::fail(&["C17"], "the panic of a destructor was swallowed".to_string());
            }
            Some(ok)
        }
        Err(ctx::Caught::Planned) => {
            ctx::count("ctl.panicking_drop");
            None
        }
        Err(ctx::Caught::Panic(m)) => {
            ctx::fail(&["C17", "C18"], format!("replacing the controlling fields panicked: {}", m));
            None
        }
    }
}
pub fn place_arr<E>(n: usize, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
    *at = up(*at, align_of::<E>());
    lv.push((*at, n * size_of::<E>()));
    *at += n * size_of::<E>();
}
pub fn ext<T>(t: &T) -> (usize, usize) {
    (t as *const T as usize, size_of::<T>())
}
pub fn ext_arr<T>(t: &[T]) -> (usize, usize) {
    (t.as_ptr() as usize, size_of_val(t))
}
pub fn same_fixed<S, T>(name: fn() -> String, s: &S, a: &T, b: &T) {
    let (x, y) = (ext(a), ext(b));
    let h = ext(s);
    vassert!(["C18", "C02", "C06"], x == y, "{}: refs() gives another place for a fixed field", name());
    vassert!(["C18", "C06"], x.0 >= h.0 && x.0 + x.1 <= h.0 + h.1, "{}: fixed field outside the header", name());
}
pub fn read_arr<E: Elem>(s: &[E], o: &mut Obs) -> Val {
    o.leaves.push(ext_arr(s));
    Val::A(s.iter().map(|x| x.get()).collect())
}
pub fn arr_len_is(name: fn() -> String, field: &str, got: usize, want: u64) {
    vassert!(["C18", "C02", "C17", "C05"], got as u64 == want, "{}: array {} has {} elements instead of {}", name(), field, got, want);
}
pub fn set_fixed<E: Elem>(m: &mut E, v: &mut Val, g: &mut Gen) {
    let x = g.u64();
    let got = m.get();
    vassert!(["C02", "C16", "C18"], got == v.e(), "mutable fixed field reads {} instead of {}", got, v.e());
    m.set(x);
    *v = Val::E(E::norm(x));
}
pub fn never<E: Elem>() -> DynArr<E> {
    DynArr::new(|_| {
        ctx::fail(&["C08", "C01", "C05", "C18"], "initializer of an impossible object called".to_string());
        std::panic::panic_any(ctx::Planned)
    })
}
/// A fixed-size array behind a const generic.
pub struct CN<const N: usize>([u8; N]);
impl<const N: usize> Elem for CN<N> {
    const NAME: &'static str = "CN";
    fn mk(x: u64) -> Self {
        CN([x as u8; N])
    }
    fn get(&self) -> u64 {
        if N == 0 {
            return 0;
        }
        if self.0.iter().any(|b| *b != self.0[0]) {
            return !0xBAD;
        }
        self.0[0] as u64
    }
    fn norm(x: u64) -> u64 {
        if N == 0 {
            0
        } else {
            x & 255
        }
    }
}
#[allow(dead_code)]
fn _t() {
    let _ = tok::live();
}
