//! Run context: which property is decided, which case runs, counters, verdicts, expected panics.
use crate::galloc;
use crate::rng::{mix, Rng};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub case: String,
    pub case_no: u64,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub poisoned: Option<String>,
    /// Properties that every failure of the present case concerns.
    pub also: &'static [&'static str],
    pub counters: BTreeMap<String, u64>,
    pub other: BTreeMap<String, u64>,
    pub hashes: HashSet<u32>,
    pub samples: Vec<String>,
    pub evals: u64,
    /// Cases noted since `evals` was last counted up (a driver may run several in one call).
    pub noted: u64,
    pub ops_in_case: u64,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

/// Panic payload of planned panics in user code.
pub struct Planned;

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let _h = galloc::enter(galloc::Scope::Harness);
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no context")))
}

pub fn init(prop: &str, seed: u64, trace_on: bool) {
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx {
            prop: prop.to_string(),
            seed,
            case: String::new(),
            case_no: 0,
            trace_on,
            trace: Vec::new(),
            poisoned: None,
            also: &[],
            counters: BTreeMap::new(),
            other: BTreeMap::new(),
            hashes: HashSet::new(),
            samples: Vec::new(),
            evals: 0,
            noted: 0,
            ops_in_case: 0,
        })
    });
    std::panic::set_hook(Box::new(|info| {
        let _h = galloc::enter(galloc::Scope::Harness);
        if info.payload().is::<Planned>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string payload)".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("{} [at {}]", msg, loc);
        let quiet = QUIET.with(|q| q.get()) > 0;
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = full.clone()
            }
        });
        if !quiet {
            eprintln!("panic: {}", full);
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

#[derive(Debug)]
pub enum Caught {
    Planned,
    Panic(String),
}

fn classify(e: Box<dyn Any + Send>) -> Caught {
    let _h = galloc::enter(galloc::Scope::Harness);
    if e.is::<Planned>() {
        Caught::Planned
    } else {
        Caught::Panic(last_panic())
    }
}

/// Runs code that may panic (planned panics or documented refusals) and reports how it ended.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(classify)
}

pub fn count(name: &str) {
    add(name, 1)
}
pub fn add(name: &str, n: u64) {
    with(|c| {
        if let Some(x) = c.counters.get_mut(name) {
            *x += n
        } else {
            c.counters.insert(name.to_string(), n);
        }
    })
}
pub fn max(name: &str, n: u64) {
    with(|c| {
        let e = c.counters.entry(name.to_string()).or_insert(0);
        if *e < n {
            *e = n
        }
    })
}
pub fn clear_counters() {
    with(|c| c.counters.clear())
}
pub fn counters_line() -> String {
    with(|c| c.counters.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "))
}
pub fn add_counters(l: &str) {
    for w in l.split(' ') {
        if let Some((k, v)) = w.split_once('=') {
            if let Ok(n) = v.parse() {
                add(k, n)
            }
        }
    }
}
/// Ends user code called from an operation that must not have called it.
pub fn give_up() -> ! {
    std::panic::panic_any(Planned)
}
pub fn poisoned() -> bool {
    with(|c| c.poisoned.is_some())
}
pub fn tracing() -> bool {
    with(|c| c.trace_on)
}
pub fn trace(f: impl FnOnce() -> String) {
    let on = with(|c| {
        c.ops_in_case += 1;
        c.trace_on
    });
    if on {
        let _h = galloc::enter(galloc::Scope::Harness);
        let s = f();
        eprintln!("  op {}", s);
        with(|c| c.trace.push(s));
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
pub fn js(s: &str) -> String {
    format!("\"{}\"", esc(s))
}

/// An oracle failed. `tags` are the properties this oracle decides. If the property under test is
/// among them, this is a violation: it is reported and the process ends with status 1. Otherwise the
/// rest of the case is not judged.
#[cold]
pub fn fail(tags: &[&str], msg: String) {
    let _h = galloc::enter(galloc::Scope::Harness);
    let (mine, done) = with(|c| (c.prop == "ALL" || tags.iter().chain(c.also).any(|t| *t == c.prop), c.poisoned.is_some()));
    if done {
        return;
    }
    if mine {
        with(|c| {
            println!(
                "VIOL {{\"property\":{},\"case\":{},\"case_no\":{},\"what\":{},\"tags\":{}}}",
                js(&c.prop),
                js(&c.case),
                c.case_no,
                js(&msg),
                js(&tags.join(","))
            );
        });
        quick_exit(1);
    }
    with(|c| {
        c.poisoned = Some(msg.clone());
        *c.other.entry(format!("{}: {}", tags.join(","), msg)).or_insert(0) += 1;
    });
}

/// Every failure in the rest of this case concerns these properties, too.
pub fn also(props: &'static [&'static str]) {
    with(|c| c.also = props)
}

pub fn quick_exit(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    unsafe { _exit(code) }
}
#[cfg(not(miri))]
unsafe fn _exit(code: i32) -> ! {
    extern "C" {
        #[link_name = "_exit"]
        fn c_exit(code: i32) -> !;
    }
    c_exit(code)
}
#[cfg(miri)]
unsafe fn _exit(code: i32) -> ! {
    std::process::exit(code)
}

#[macro_export]
macro_rules! vassert {
    ($tags:expr, $cond:expr, $($arg:tt)*) => {
        if !$cond {
            $crate::ctx::fail(&$tags, $crate::galloc::user(|| format!($($arg)*)));
        }
    };
}

/// Polls the errors the monitors recorded asynchronously (allocator, token registry).
pub fn poll() {
    if let Some(e) = galloc::take_err() {
        fail(
            &["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C14", "C17", "C18", "C21", "C22", "C23"],
            format!("allocator monitor: {} (block {:#x}, {} / {})", e.what, e.ptr, e.a, e.b),
        );
    }
    if let Some(e) = crate::tok::take_err() {
        fail(
            &["C01", "C02", "C03", "C04", "C09", "C14", "C15", "C17", "C18", "C20", "C21", "C22", "C23", "C10"],
            format!("token registry: {}", e),
        );
    }
}

/// CPU seconds one case may use (a case normally uses milliseconds).
const WATCHDOG: i64 = 60;
static CASE_FOR_SIGNAL: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn signal_case() -> String {
    CASE_FOR_SIGNAL.try_lock().map(|s| s.clone()).unwrap_or_default()
}

/// The process was ended by a signal during a case: a violation, whatever is being decided (no property
/// holds of a crashed program). Only case data that needs no locks or allocation is reported.
pub fn fatal(what: &str) -> ! {
    let case = signal_case();
    let prop = case.split('|').next().unwrap_or("").to_string();
    let rest = case.split('|').nth(1).unwrap_or("").to_string();
    println!(
        "VIOL {{\"property\":{},\"case\":{},\"case_no\":0,\"what\":{},\"tags\":\"crash\"}}",
        js(&prop),
        js(&rest),
        js(&format!("the program ended with: {}", what))
    );
    quick_exit(1)
}

/// Runs one case. `f` gets a generator seeded by the run's seed, the driver's name and the case number,
/// so that the case can be replayed alone. Any panic that escapes the case is a violation of the
/// property under test (the library panicked where it must not, or the monitors lost track).
pub fn case(driver: &str, no: u64, shape: &str, f: impl FnOnce(&mut Rng)) {
    let seed = with(|c| {
        c.case_no = no;
        c.case = format!("{}#{}:{}", driver, no, shape);
        c.poisoned = None;
        c.also = &[];
        c.ops_in_case = 0;
        c.trace.clear();
        c.evals += 1;
        c.noted = 0;
        if c.trace_on {
            eprintln!("case {}", c.case);
        }
        let mut h = c.seed;
        for b in driver.bytes() {
            h = mix(h, b as u64 + 1);
        }
        mix(h, no)
    });
    if let Ok(mut s) = CASE_FOR_SIGNAL.lock() {
        *s = with(|c| format!("{}|{}", c.prop, c.case));
    }
    let mut rng = Rng::new(seed);
    crate::tok::reset();
    crate::sys::watchdog(WATCHDOG);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng)));
    match r {
        Ok(()) => {
            poll();
        }
        Err(e) => {
            let c = classify(e);
            let what = match c {
                Caught::Planned => "a planned panic escaped".to_string(),
                Caught::Panic(m) => m,
            };
            let prop = with(|c| c.prop.clone());
            fail(&[&prop], format!("unexpected panic: {}", what));
        }
    }
    crate::tok::clear_plan();
    galloc::fail_at(-1);
}

/// Notes a finished, non-trivial case by the hash of what made it distinct.
pub fn distinct(h: u64) {
    with(|c| {
        c.hashes.insert((h ^ (h >> 32)) as u32);
        if c.noted > 0 {
            c.evals += 1;
        }
        c.noted += 1;
    })
}
pub fn sample(f: impl FnOnce() -> String) {
    let want = with(|c| c.samples.len() < 4);
    if want {
        let s = galloc::user(f);
        with(|c| c.samples.push(s));
    }
}

pub fn summary() -> String {
    with(|c| {
        let mut o = String::from("SUMMARY {");
        o.push_str(&format!("\"property\":{},\"evaluations\":{},", js(&c.prop), c.evals));
        o.push_str("\"counters\":{");
        o.push_str(&c.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"other\":{");
        o.push_str(&c.other.iter().take(20).map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"samples\":[");
        o.push_str(&c.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        o.push_str("],\"hashes\":\"");
        for h in c.hashes.iter().take(60000) {
            o.push_str(&format!("{:08x}", h));
        }
        o.push_str("\"}");
        o
    })
}
