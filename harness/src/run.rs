//! Command line, choice of drivers for each property, and the run loop.
use crate::ctx;
use crate::galloc;
use crate::objs::TypeOps;
use crate::rng::Rng;
use crate::world::{default_weight, history, Op};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Env {
    pub prop: String,
    pub thorough: bool,
    /// Interpreted: a thousand times slower.
    pub miri: bool,
    /// Under AddressSanitizer.
    pub asan: bool,
    pub shard: u64,
    pub types: Vec<TypeOps>,
}
pub struct Driver {
    pub name: &'static str,
    /// Relative number of cases per round.
    pub share: u64,
    /// At most this many cases (in total over all shards).
    pub limit: u64,
    pub run: fn(&Env, &str, u64),
}

pub fn main(types: &dyn Fn() -> Vec<TypeOps>) {
    let mut a = std::env::args().skip(1);
    let (mut prop, mut tier, mut seed, mut shard, mut budget) = ("C10".to_string(), "quick".to_string(), 1u64, (0u64, 1u64), 3000u64);
    let (mut cases, mut only, mut trace, mut mode) = (u64::MAX, None, false, "native".to_string());
    let mut start = 0u64;
    let mut only_driver: Option<String> = None;
    let mut only_type: Option<String> = None;
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--prop" => prop = v(),
            "--tier" => tier = v(),
            "--seed" => seed = v().parse().unwrap(),
            "--shard" => {
                let s = v();
                let (x, y) = s.split_once('/').unwrap();
                shard = (x.parse().unwrap(), y.parse().unwrap());
            }
            "--start" => start = v().parse().unwrap(),
            "--budget-ms" => budget = v().parse().unwrap(),
            "--cases" => cases = v().parse().unwrap(),
            "--driver" => only_driver = Some(v()),
            "--type" => only_type = Some(v()),
            "--case" => {
                let s = v();
                let s = s.split(':').next().unwrap();
                let (d, n) = s.split_once('#').unwrap();
                only = Some((d.to_string(), n.parse::<u64>().unwrap()));
            }
            "--trace" => trace = true,
            "--mode" => mode = v(),
            _ => panic!("unknown argument {}", k),
        }
    }
    ctx::init(&prop, seed, trace);
    crate::sys::install(mode == "asan");
    let mut types = types();
    if let Some(t) = only_type {
        types.retain(|x| (x.name)().contains(&t));
    }
    check_constants(&types);
    let env = Env { types: filter(&prop, types), prop: prop.clone(), thorough: tier == "thorough", miri: cfg!(miri) || mode == "miri", asan: mode == "asan", shard: shard.0 };
    let mut ds = drivers(&prop);
    if let Some(d) = only_driver {
        ds.retain(|x| x.name == d);
    }
    if let Some((d, n)) = only {
        for x in &ds {
            if x.name == d {
                (x.run)(&env, x.name, n);
            }
        }
    } else {
        let end = Instant::now() + Duration::from_millis(budget);
        let mut next: Vec<u64> = ds.iter().map(|_| start + shard.0).collect();
        let mut total = 0;
        'all: loop {
            let mut any = false;
            for (i, d) in ds.iter().enumerate() {
                for _ in 0..d.share {
                    if next[i] >= d.limit {
                        break;
                    }
                    if total >= cases || Instant::now() > end {
                        break 'all;
                    }
                    any = true;
                    (d.run)(&env, d.name, next[i]);
                    next[i] += shard.1;
                    total += 1;
                }
            }
            if !any {
                break;
            }
        }
    }
    crate::sys::watchdog(0);
    println!("{}", ctx::summary());
    ctx::quick_exit(0);
}

/// The constants of each type's interface.
fn check_constants(types: &[TypeOps]) {
    ctx::case("constants", 0, "", |_| {
        for t in types {
            let n = (t.name)();
            if t.align != t.ralign {
                ctx::fail(
                    &["C06", "C05", "C01", "C18", "C23", "C07"],
                    format!("{}: alignment {} instead of {}", n, t.align, t.ralign),
                );
            }
            if t.rdrop && !t.needs_vdrop {
                ctx::fail(&["C03", "C18", "C23"], format!("{}: claims to need no drop", n));
            }
        }
    });
}

fn filter(prop: &str, types: Vec<TypeOps>) -> Vec<TypeOps> {
    let has = |t: &TypeOps, x: &str| t.tags.contains(&x);
    let mut v = types.clone();
    match prop {
        "C03" => v.retain(|t| t.rdrop),
        "C15" => v.retain(|t| t.can_clone),
        "C17" => v.retain(|t| t.has_ctl),
        "C18" => v.retain(|t| has(t, "macro")),
        "C19" => v.retain(|t| has(t, "str")),
        "C23" => v.retain(|t| has(t, "newtype")),
        _ => {}
    }
    if v.is_empty() {
        types
    } else {
        v
    }
}

fn weight(prop: &str, op: Op) -> u32 {
    use Op::*;
    let d = default_weight(op);
    let only = |ops: &[(Op, u32)], rest: u32| -> u32 { ops.iter().find(|x| x.0 == op).map(|x| x.1).unwrap_or(rest) };
    match prop {
        "C04" => match op {
            Panicking => 60,
            CloneFrom => 8,
            Huge => 0,
            _ => d,
        },
        "C03" => match op {
            Panicking => 6,
            BoxDrop | SeqDrop | ArenaDrop | Ctl => d * 3,
            BoxMutate | ArenaMutate | IterMut | AtMut => d * 2,
            _ => d,
        },
        "C08" => match op {
            Huge => 60,
            _ => d,
        },
        "C10" => only(
            &[
                (Push, 30), (Extend, 10), (Collect, 8), (FromMacro, 6), (Iter, 12), (IterMut, 10), (AllMut, 4), (TakeAll, 6),
                (Take, 6), (Forget, 2), (SeqNew, 3), (SeqDrop, 2), (SeqClone, 4), (BoxNew, 4), (BoxToSeq, 6), (AtMut, 4), (ArenaNew, 2), (ArenaTo, 3),
                (Panicking, 2), (Huge, 1), (Ctl, 1), (Protocol, 12),
            ],
            0,
        ),
        "C11" | "C12" => only(
            &[
                (Push, 40), (Extend, 8), (Collect, 4), (FromMacro, 2), (IterMut, 6), (AllMut, 3), (AtMut, 14), (TakeAll, 6), (Take, 8), (Protocol, 4),
                (Forget, 3), (Offsets, 20), (Foreign, 10), (SeqClone, 4), (BoxNew, 3), (BoxToSeq, 5), (SeqNew, 4), (SeqDrop, 1),
                (Panicking, 8), (Ctl, 3), (Huge, 2), (ArenaNew, 2), (ArenaTo, 3),
            ],
            0,
        ),
        "C13" => only(&[(Push, 60), (Extend, 10), (Collect, 4), (TakeAll, 6), (Take, 6), (Forget, 2), (BoxNew, 4), (BoxToSeq, 5), (SeqNew, 1), (Huge, 2), (Panicking, 2)], 0),
        "C14" => only(
            &[
                (Push, 30), (Extend, 12), (Take, 30), (TakeAll, 12), (Forget, 8), (SeqNew, 2), (SeqDrop, 4), (BoxDrop, 6), (BoxToSeq, 8), (ArenaTo, 8),
                (ArenaDrop, 4), (BoxMutate, 4), (ArenaMutate, 4), (Iter, 2), (Offsets, 3), (Panicking, 6), (Collect, 3), (Protocol, 8),
            ],
            0,
        ),
        "C15" => match op {
            BoxClone | BoxCloneTo | ArenaClone | SeqClone | CloneFrom => 24,
            BoxMutate | ArenaMutate | AtMut | BoxDrop | ArenaDrop | SeqDrop => 10,
            _ => d,
        },
        "C16" => match op {
            BoxMutate | ArenaMutate | IterMut | AllMut | AtMut => 25,
            Ctl => 8,
            _ => d,
        },
        "C17" => match op {
            Ctl => 80,
            Panicking | Huge => 1,
            _ => d,
        },
        "C21" => match op {
            RawOut | RawIn | RawTrip | ArenaLeak | ArenaRaw => 15,
            Take | Forget => 10,
            _ => d,
        },
        "C22" => match op {
            ArenaNew => 30,
            ArenaMutate | ArenaDrop | ArenaTo | BoxToArena => 12,
            ArenaLeak | ArenaRaw | ArenaClone => 6,
            _ => d,
        },
        "C18" | "C23" => match op {
            Ctl => 12,
            Panicking => 6,
            _ => d,
        },
        _ => d,
    }
}

fn d_history(env: &Env, name: &str, no: u64) {
    let n = env.types.len() as u64;
    let t = env.types[(no % n) as usize];
    let prop = env.prop.clone();
    ctx::case(name, no, &(t.name)(), |r: &mut Rng| {
        // (operations, longest array, objects, elements)
        let (ops, len, objs, elems) = if env.miri {
            (r.range(6, 16), 5, 3, 6)
        } else {
            match r.below(20) {
                0..=6 => (r.range(5, 30), 5, 3, 8),
                7..=14 => (r.range(20, 60), 40, 4, 24),
                15..=17 => (r.range(20, 60), 20, 3, 70),
                18 => (r.range(10, 30), 300, 4, 24),
                _ => (r.range(5, 12), 3000, 3, 12),
            }
        };
        history(t, r, &|o| weight(&prop, o), ops, len, objs, elems)
    })
}
/// Few objects, among them very long ones (around the limits of the 16-bit length types).
fn d_long(env: &Env, name: &str, no: u64) {
    let n = env.types.len() as u64;
    let t = env.types[(no % n) as usize];
    let prop = env.prop.clone();
    ctx::case(name, no, &(t.name)(), |r: &mut Rng| history(t, r, &|o| weight(&prop, o), 6, 70000, 2, 6))
}
/// One sequence that becomes long.
fn d_manyelems(env: &Env, name: &str, no: u64) {
    let n = env.types.len() as u64;
    let t = env.types[(no % n) as usize];
    ctx::case(name, no, &(t.name)(), |r: &mut Rng| {
        history(
            t,
            r,
            &|o| match o {
                Op::Push => 60,
                Op::Extend => 60,
                Op::Take | Op::TakeAll => 1,
                Op::Offsets | Op::Iter | Op::IterMut | Op::AtMut => 3,
                _ => 0,
            },
            120,
            3,
            2,
            400,
        )
    })
}

fn drivers(prop: &str) -> Vec<Driver> {
    let mut v = vec![
        Driver { name: "history", share: 40, limit: u64::MAX, run: d_history },
        Driver { name: "long", share: 1, limit: u64::MAX, run: d_long },
        Driver { name: "many", share: 1, limit: u64::MAX, run: d_manyelems },
    ];
    let hist = v[0].share;
    if cfg!(miri) {
        v.truncate(1);
    }
    use crate::special::*;
    if prop == "C25" {
        return vec![Driver { name: "threads", share: 1, limit: u64::MAX, run: crate::threads::d_threads }];
    }
    if prop == "C09" && !cfg!(miri) {
        v.truncate(1);
        v[0].share = 4;
    }
    let mut more = |name, share, run: fn(&Env, &str, u64)| v.push(Driver { name, share, limit: u64::MAX, run });
    match prop {
        "C08" => {
            more("sizes", 60, d_sizes);
            #[cfg(not(miri))]
            more("lens", 20, d_lens);
        }
        "C09" => {
            #[cfg(not(miri))]
            more("alloc_fail", 4, d_alloc_fail);
        }
        "C13" => more("amortized", 6, d_amortized),
        "C19" => more("texts", 60, d_texts),
        "C20" => more("array_init", 200, d_array_init),
        "C01" | "C02" | "C03" => {
            more("array_init", 10, d_array_init);
            more("texts", 5, d_texts);
            more("interior", 20, crate::interior::d_interior);
        }
        "C16" => more("interior", 40, crate::interior::d_interior),
        // Not a property: everything at once, for trying out the machinery.
        "ALL" => {
            more("array_init", 10, d_array_init);
            more("texts", 5, d_texts);
            more("interior", 20, crate::interior::d_interior);
            more("sizes", 5, d_sizes);
            more("amortized", 1, d_amortized);
            #[cfg(not(miri))]
            more("lens", 2, d_lens);
            #[cfg(not(miri))]
            more("alloc_fail", 1, d_alloc_fail);
        }
        _ => {}
    }
    #[cfg(all(not(miri), target_pointer_width = "64"))]
    if ["C02", "C05", "C06", "C08", "C10", "C11", "C12", "C16", "C17", "C18", "C22", "C23", "ALL"].contains(&prop) {
        v.push(Driver { name: "giant", share: 1, limit: 112, run: crate::giant::d_giant });
    }
    #[cfg(not(miri))]
    if crate::many::FOR.contains(&prop) {
        v.push(Driver { name: "many_elements", share: 1, limit: u64::MAX, run: crate::many::d_many });
    }
    let _ = (hist, galloc::ON);
    v
}
