//! Replay engine: executable contracts of the listed properties, run against the real crate
//! (path dependency on /repo) and compared with oracles that share no code with it.
//!
//!   replay run  <PROP> --seed S --secs T --threads N --state DIR
//!   replay case <PROP> <case-number> --seed S       (one case, with its transcript)
mod dfa;
mod gen;
mod p_aut;
mod p_re;
mod p_sets;
mod p_str;
mod rng;

use rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub rng: Rng,
    pub i: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    pub key: u64,
    pub nontrivial: bool,
    pub checks: u64,
}

impl Ctx {
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
    pub fn key<T: std::hash::Hash>(&mut self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.key = mix(self.key, h.finish());
    }
}

#[macro_export]
macro_rules! ck {
    ($ctx:expr, $cond:expr, $($arg:tt)*) => {
        $ctx.checks += 1;
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

pub type R = Result<(), String>;

thread_local!(static PANIC: RefCell<String> = const { RefCell::new(String::new()) });

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// run f, Err(message) when it panics
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn case_fn(prop: &str) -> fn(&mut Ctx) -> R {
    match prop {
        "C01" => p_re::c01,
        "C02" => p_re::c02,
        "C03" => p_re::c03,
        "C04" => p_aut::c04,
        "C05" => p_re::c05,
        "C06" => p_str::c06,
        "C07" => p_re::c07,
        "C08" => p_str::c08,
        "C09" => p_str::c09,
        "C10" => p_re::c10,
        "C11" => p_sets::c11,
        "C12" => p_sets::c12,
        "C13" => p_aut::c13,
        "C14" => p_aut::c14,
        "C15" => p_sets::c15,
        "C16" => p_re::c16,
        "C17" => p_str::c17,
        "C18" => p_re::c18,
        "C19" => p_re::c19,
        "C20" => p_sets::c20,
        _ => panic!("unknown property {prop}"),
    }
}

fn run_case(prop: &str, seed: u64, i: u64, verbose: bool) -> (R, Ctx) {
    let pseed = mix(seed, prop.bytes().fold(7, |a, b| mix(a, b as u64)));
    let mut ctx = Ctx {
        rng: Rng(mix(pseed, i)),
        i,
        verbose,
        log: vec![],
        key: 0,
        nontrivial: false,
        checks: 0,
    };
    let f = case_fn(prop);
    let r = match catch_unwind(AssertUnwindSafe(|| f(&mut ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected panic: {}", last_panic())),
    };
    (r, ctx)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}").replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str, def: u64| -> u64 {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .and_then(|x| x.parse().ok())
            .unwrap_or(def)
    };
    let prop = args[2].clone();
    let seed = opt("--seed", 1);
    match args[1].as_str() {
        "case" => {
            let i: u64 = args[3].parse().unwrap();
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let (r, ctx) = run_case(&prop, seed, i, true);
                    for l in &ctx.log {
                        println!("{l}");
                    }
                    match r {
                        Ok(()) => {
                            println!("case {i} of {prop} (seed {seed}): holds");
                            0
                        }
                        Err(e) => {
                            println!("case {i} of {prop} (seed {seed}): FAILS: {e}");
                            1
                        }
                    }
                })
                .unwrap();
            std::process::exit(h.join().unwrap());
        }
        // the cases of a comma-separated list in one fresh thread (one thread-local manager);
        // exit 1 when the last one fails. Shorter tails of the list are tried first.
        "seq" => {
            let list: Vec<u64> = args[3].split(',').map(|x| x.parse().unwrap()).collect();
            let mut k = 1;
            loop {
                let tail = list[list.len().saturating_sub(k)..].to_vec();
                let prop = prop.clone();
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        let n = tail.len();
                        for (j, &i) in tail.iter().enumerate() {
                            let (r, ctx) = run_case(&prop, seed, i, j + 1 == n);
                            if j + 1 == n {
                                if let Err(e) = r {
                                    println!("cases {tail:?} of {prop} (seed {seed}), one after the other in one thread: the last one FAILS: {e}");
                                    for l in &ctx.log {
                                        println!("{l}");
                                    }
                                    return true;
                                }
                            }
                        }
                        false
                    })
                    .unwrap();
                if h.join().unwrap() {
                    std::process::exit(1);
                }
                if k >= list.len() {
                    println!("holds");
                    std::process::exit(0);
                }
                k = (2 * k).min(list.len());
            }
        }
        "run" => {
            let secs = opt("--secs", 10);
            let threads = opt("--threads", 8) as usize;
            let maxcases = opt("--cases", u64::MAX);
            let hang = opt("--hang", 120);
            let state = args
                .iter()
                .position(|a| a == "--state")
                .map(|i| args[i + 1].clone());
            run(&prop, seed, secs, threads, maxcases, hang, state);
        }
        _ => panic!("usage"),
    }
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    cases: AtomicU64,
    checks: AtomicU64,
    nontrivial: Mutex<HashSet<u64>>,
    // case, message, cases run before it in the same thread
    viol: Mutex<Option<(u64, String, Vec<u64>)>>,
    current: Vec<AtomicU64>,
    started: Vec<Mutex<Instant>>,
}

fn run(prop: &str, seed: u64, secs: u64, threads: usize, maxcases: u64, hang: u64, state: Option<String>) {
    let t0 = Instant::now();
    let sh = Arc::new(Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        cases: AtomicU64::new(0),
        checks: AtomicU64::new(0),
        nontrivial: Mutex::new(HashSet::new()),
        viol: Mutex::new(None),
        current: (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect(),
        started: (0..threads).map(|_| Mutex::new(Instant::now())).collect(),
    });
    let deadline = t0 + Duration::from_secs(secs);
    let mut hs = vec![];
    for t in 0..threads {
        let sh = sh.clone();
        let prop = prop.to_string();
        let state = state.clone();
        hs.push(std::thread::spawn(move || {
            // batches run in fresh threads, so the thread-local manager starts fresh too
            loop {
                let sh2 = sh.clone();
                let prop2 = prop.clone();
                let state2 = state.clone();
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || -> bool {
                        use std::io::Write;
                        use std::os::unix::fs::FileExt;
                        let f = state2.map(|d| {
                            std::fs::OpenOptions::new()
                                .create(true)
                                .truncate(false)
                                .write(true)
                                .open(format!("{d}/worker{t}"))
                                .unwrap()
                        });
                        let mut before: Vec<u64> = vec![];
                        for _ in 0..100 {
                            if sh2.stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                                return false;
                            }
                            let i = sh2.next.fetch_add(1, Ordering::Relaxed);
                            if i >= maxcases {
                                return false;
                            }
                            if let Some(f) = &f {
                                let _ = f.write_at(format!("{i:020}\n").as_bytes(), 0);
                            }
                            *sh2.started[t].lock().unwrap() = Instant::now();
                            sh2.current[t].store(i, Ordering::Relaxed);
                            let (r, ctx) = run_case(&prop2, seed, i, false);
                            sh2.current[t].store(u64::MAX, Ordering::Relaxed);
                            sh2.cases.fetch_add(1, Ordering::Relaxed);
                            sh2.checks.fetch_add(ctx.checks, Ordering::Relaxed);
                            if ctx.nontrivial {
                                let mut m = sh2.nontrivial.lock().unwrap();
                                if m.len() < 4_000_000 {
                                    m.insert(ctx.key);
                                }
                            }
                            if let Err(e) = r {
                                let mut v = sh2.viol.lock().unwrap();
                                if v.as_ref().map_or(true, |x| i < x.0) {
                                    *v = Some((i, e, before));
                                }
                                sh2.stop.store(true, Ordering::Relaxed);
                                return false;
                            }
                            before.push(i);
                        }
                        let _ = std::io::stdout().flush();
                        true
                    })
                    .unwrap();
                if !h.join().unwrap_or(false) {
                    return;
                }
            }
        }));
    }
    // watchdog
    {
        let sh = sh.clone();
        let prop = prop.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for t in 0..sh.current.len() {
                let c = sh.current[t].load(Ordering::Relaxed);
                if c != u64::MAX && sh.started[t].lock().unwrap().elapsed().as_secs() > hang {
                    println!(
                        "{{\"result\":\"hang\",\"property\":{},\"seed\":{seed},\"case\":{c},\"profile\":{},\"message\":\"no answer within {hang} s\"}}",
                        jstr(&prop),
                        jstr(profile())
                    );
                    std::process::exit(1);
                }
            }
        });
    }
    for h in hs {
        let _ = h.join();
    }
    let viol = sh.viol.lock().unwrap().clone();
    let n = sh.cases.load(Ordering::Relaxed);
    let nt = sh.nontrivial.lock().unwrap().len();
    if let Some((i, e, before)) = viol {
        // transcript
        let p2 = prop.to_string();
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || run_case(&p2, seed, i, true))
            .unwrap();
        let (r2, ctx) = h.join().unwrap();
        println!(
            "{{\"result\":\"violation\",\"property\":{},\"seed\":{seed},\"case\":{i},\"before\":{before:?},\"profile\":{},\"message\":{},\"reproduced\":{},\"transcript\":{},\"cases\":{n},\"distinct_nontrivial\":{nt}}}",
            jstr(prop),
            jstr(profile()),
            jstr(&e),
            r2.is_err(),
            jlist(&ctx.log)
        );
        std::process::exit(1);
    }
    let mut samples = vec![];
    for j in 0..3 {
        let i = if n == 0 { 0 } else { j * (n.saturating_sub(1)) / 3 };
        let p2 = prop.to_string();
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || run_case(&p2, seed, i, true))
            .unwrap();
        if let Ok((_, ctx)) = h.join() {
            let mut s = format!("case {i}: {}", ctx.log.join("; "));
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            samples.push(s);
        }
    }
    println!(
        "{{\"result\":\"ok\",\"property\":{},\"seed\":{seed},\"profile\":{},\"cases\":{n},\"checks\":{},\"distinct_nontrivial\":{nt},\"wall_s\":{:.2},\"samples\":{}}}",
        jstr(prop),
        jstr(profile()),
        sh.checks.load(Ordering::Relaxed),
        t0.elapsed().as_secs_f64(),
        jlist(&samples)
    );
}
