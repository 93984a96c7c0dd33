//! `replay --seed S --seconds T --report FILE`: looks for an input on which the real
//! code breaks the property; `--case N`: replays one.
#![allow(dead_code, unused_macros)]
#[macro_use]
#[path = "../../harness/src/mk.rs"]
mod mk;
#[path = "../../harness/src/obs.rs"]
mod obs;
#[path = "../../harness/src/spec.rs"]
mod spec;
mod rng;

use rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// Ok: the property holds; the string names the kind of case (for distinctness).
pub type Outcome = Result<String, String>;

macro_rules! property {
    ($($feature:literal $module:ident $file:literal;)*) => {
        $(#[cfg(feature = $feature)]
        #[path = $file]
        mod $module;
        #[cfg(feature = $feature)]
        use $module as property;)*
    };
}
property! {
    "c01" c01 "codec.rs"; "c02" c02 "codec.rs"; "c03" c03 "codec.rs"; "c04" c04 "codec.rs";
    "c05" c05 "codec.rs"; "c06" c06 "codec.rs"; "c07" c07 "codec.rs"; "c08" c08 "c08.rs";
    "c09" c09 "c09.rs"; "c10" c10 "c10.rs"; "c11" c11 "c11.rs"; "c12" c12 "c12.rs";
    "c13" c13 "c13.rs"; "c14" c14 "c14.rs"; "c15" c15 "c15.rs"; "c16" c16 "c16.rs";
    "c17" c17 "c17.rs"; "c18" c18 "c18.rs"; "c19" c19 "c19.rs"; "c20" c20 "c20.rs";
}

/// Err unless equal
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($what:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($what)*), a, b));
        }
    }};
}
#[macro_export]
macro_rules! holds {
    ($a:expr, $($what:tt)*) => {
        if !($a) {
            return Err(format!($($what)*));
        }
    };
}

/// Whether `f` panics.
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn one(seed: u64, case: u64) -> (Outcome, Vec<String>) {
    let mut r = Rng::new(seed, case);
    let o = catch_unwind(AssertUnwindSafe(|| property::case(&mut r, case)));
    let o = match o {
        Ok(o) => o,
        Err(_) => Err(format!("panics: {}", PANIC.with(|p| p.borrow().clone()))),
    };
    (o, r.log)
}

fn main() {
    let mut seed = 1u64;
    let mut seconds = 10u64;
    let mut report = String::new();
    let mut only = None;
    // where to note the case before it is run: one thread only
    let mut trace = String::new();
    let mut max = u64::MAX;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let v = it.next().unwrap_or_default();
        match &a[..] {
            "--seed" => seed = v.parse().unwrap(),
            "--seconds" => seconds = v.parse().unwrap(),
            "--cases" => max = v.parse().unwrap(),
            "--report" => report = v,
            "--trace" => trace = v,
            "--case" => only = Some(v.parse::<u64>().unwrap()),
            _ => panic!("unknown argument {}", a),
        }
    }
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "));
    }));
    if let Some(case) = only {
        let (o, log) = one(seed, case);
        match o {
            Ok(k) => println!("holds ({})", k),
            Err(e) => {
                println!("FAILS: {}\nchoices: {}", e, log.join(" "));
                std::process::exit(1);
            }
        }
        return;
    }
    let threads = if property::SINGLE || !trace.is_empty() { 1 } else { 4 };
    let running: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let done = AtomicU64::new(0);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(seconds);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let kinds = Mutex::new(std::collections::BTreeMap::<String, u64>::new());
    let found = Mutex::new(None::<(u64, String, Vec<String>)>);
    let total = AtomicU64::new(0);
    std::thread::scope(|s| {
        for me in &running {
            let (trace, found, next, stop, kinds, total, done) =
                (&trace, &found, &next, &stop, &kinds, &total, &done);
            s.spawn(move || {
                let mut mine = std::collections::BTreeMap::<String, u64>::new();
                let mut n = 0;
                while !stop.load(Ordering::Relaxed) && std::time::Instant::now() < end {
                    let case = next.fetch_add(1, Ordering::Relaxed);
                    if case >= max || case >= property::CASES {
                        break;
                    }
                    n += 1;
                    me.store(case, Ordering::Relaxed);
                    if !trace.is_empty() {
                        std::fs::write(trace, case.to_string()).unwrap();
                    }
                    let (o, log) = one(seed, case);
                    match o {
                        Ok(k) => *mine.entry(k).or_default() += 1,
                        Err(e) => {
                            stop.store(true, Ordering::Relaxed);
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map_or(true, |x| x.0 > case) {
                                *f = Some((case, e, log));
                            }
                            break;
                        }
                    }
                }
                total.fetch_add(n, Ordering::Relaxed);
                let mut k = kinds.lock().unwrap();
                for (a, b) in mine {
                    *k.entry(a).or_default() += b;
                }
                done.fetch_add(1, Ordering::Relaxed);
            });
        }
        // a case that does not end
        let mut last = vec![(u64::MAX, std::time::Instant::now()); running.len()];
        while done.load(Ordering::Relaxed) < running.len() as u64 {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for (me, last) in running.iter().zip(&mut last) {
                let case = me.load(Ordering::Relaxed);
                if case != last.0 {
                    *last = (case, std::time::Instant::now());
                } else if last.1.elapsed().as_secs() >= 30 && case != u64::MAX && done.load(Ordering::Relaxed) == 0 {
                    let out = format!(
                        "{{\"evaluations\": {}, \"kinds\": {{}}, \"found\": {{\"seed\": {}, \"case\": {}, \"what\": \"a call does not return\", \"choices\": \"\"}}}}",
                        case, seed, case
                    );
                    std::fs::write(&report, out).unwrap();
                    std::process::exit(1);
                }
            }
        }
    });
    let kinds = kinds.into_inner().unwrap();
    let esc = |s: &str| {
        s.chars()
            .map(|c| match c {
                '"' => "\\\"".to_string(),
                '\\' => "\\\\".to_string(),
                c if (c as u32) < 32 || c as u32 == 127 => format!("\\u{:04x}", c as u32),
                c => c.to_string(),
            })
            .collect::<String>()
    };
    let mut out = format!("{{\"evaluations\": {}, ", total.load(Ordering::Relaxed));
    out += "\"kinds\": {";
    out += &kinds
        .iter()
        .map(|(k, v)| format!("\"{}\": {}", esc(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    out += "}";
    let found = found.into_inner().unwrap();
    if let Some((case, e, log)) = &found {
        out += &format!(
            ", \"found\": {{\"seed\": {}, \"case\": {}, \"what\": \"{}\", \"choices\": \"{}\"}}",
            seed,
            case,
            esc(e),
            esc(&log.join(" "))
        );
    }
    out += "}\n";
    if report.is_empty() {
        print!("{}", out);
    } else {
        std::fs::write(&report, out).unwrap();
    }
    std::process::exit(if found.is_some() { 1 } else { 0 });
}
