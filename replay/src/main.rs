//! Counterexample search and replay for the properties in /verif/properties.jsonl, on the real
//! crate (public API only).  It never decides "proved": it looks for a concrete failing input,
//! and it is the bounded stand-in named in DESIGN.md when the verifier cannot be applied.
mod dict;
mod gen;
mod oracle;

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Allocator that parks a worker whose case holds more than 2 GB, so that a loop that grows memory
/// is reported as a failing input instead of ending the whole process.
struct Alloc;
const LIMIT: usize = 2 << 30;
thread_local! {
    static LIVE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
static BLOWN: AtomicU64 = AtomicU64::new(0);
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let over = LIVE.try_with(|c| {
            c.set(c.get().wrapping_add(l.size()));
            let v = c.get();
            v > LIMIT && v < usize::MAX / 2
        });
        if over == Ok(true) {
            let w = WORKER.try_with(|w| w.get()).unwrap_or(usize::MAX);
            if w < 64 {
                BLOWN.fetch_or(1 << w, Ordering::SeqCst);
                loop {
                    std::thread::sleep(Duration::from_secs(1));
                }
            }
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get().wrapping_sub(l.size())));
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Alloc = Alloc;

fn hash(c: &Case) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.t.hash(&mut h);
    c.n.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    /// texts: a, b (patch properties) or ancestor, ours, theirs (merge properties); base image, patch text
    pub t: Vec<Vec<u8>>,
    /// numeric options (context length, marker length, style, flags)
    pub n: Vec<usize>,
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            b'\n' => s.push_str("\\n"),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s
}

pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            match b[i + 1] {
                b'n' => {
                    o.push(b'\n');
                    i += 2
                }
                b'\\' => {
                    o.push(b'\\');
                    i += 2
                }
                _ => {
                    o.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap());
                    i += 4
                }
            }
        } else {
            o.push(b[i]);
            i += 1
        }
    }
    o
}

impl Case {
    fn to_text(&self, prop: &str, why: &str) -> String {
        let mut s = format!("property: {}\n", prop);
        for t in &self.t {
            s.push_str(&format!("text: {}\n", esc(t)));
        }
        for n in &self.n {
            s.push_str(&format!("num: {}\n", n));
        }
        s.push_str(&format!("why: {}\n", why.replace('\n', " | ")));
        s
    }
    fn from_text(s: &str) -> (String, Case) {
        let mut c = Case::default();
        let mut p = String::new();
        for l in s.lines() {
            if let Some(x) = l.strip_prefix("property: ") {
                p = x.to_string()
            } else if let Some(x) = l.strip_prefix("text: ") {
                c.t.push(unesc(x))
            } else if l == "text:" {
                c.t.push(vec![])
            } else if let Some(x) = l.strip_prefix("num: ") {
                c.n.push(x.parse().unwrap())
            }
        }
        (p, c)
    }
}

pub fn run_case(prop: &str, c: &Case) -> Result<bool, String> {
    let c2 = c.clone();
    let prop2 = prop.to_string();
    let r = std::panic::catch_unwind(move || oracle::check(&prop2, &c2));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            Err(format!("panic: {}", m))
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| if std::env::var_os("REPLAY_SLOW").is_some() { eprintln!("{}", i) }));
    match args[1].as_str() {
        // search PROP SEED SECONDS OUT
        "search" => {
            let prop = args[2].clone();
            let seed: u64 = args[3].parse().unwrap();
            let secs: f64 = args[4].parse().unwrap();
            let out = args[5].clone();
            let threads: usize = args.get(6).map(|x| x.parse().unwrap()).unwrap_or(4);
            search(prop, seed, secs, out, threads)
        }
        // replay FILE : exit 1 if the failure reproduces
        "replay" => {
            let s = std::fs::read_to_string(&args[2]).unwrap();
            let (p, c) = Case::from_text(&s);
            match run_case(&p, &c) {
                Ok(_) => println!("holds"),
                Err(e) => {
                    println!("FAILS: {}", e);
                    std::process::exit(1)
                }
            }
        }
        _ => panic!("usage"),
    }
}

fn search(prop: String, seed: u64, secs: f64, out: String, threads: usize) {
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicU64::new(0));
    let nontriv = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let samples: Arc<Mutex<Vec<Case>>> = Arc::new(Mutex::new(Vec::new()));
    let exh_done = Arc::new(AtomicU64::new(0));
    let seen: Arc<Vec<Mutex<std::collections::HashSet<u64>>>> = Arc::new((0..64).map(|_| Default::default()).collect());
    let trace = std::env::var("REPLAY_TRACE").ok();
    // one "current case" slot per worker, for hang detection
    let cur: Vec<Arc<Mutex<(Instant, Option<Case>)>>> = (0..threads)
        .map(|_| Arc::new(Mutex::new((Instant::now(), None))))
        .collect();
    let mut hs = Vec::new();
    for w in 0..threads {
        let (seen, trace) = (seen.clone(), trace.clone());
        let (prop, stop, evals, nontriv, found, samples, cur, exh_done) = (
            prop.clone(),
            stop.clone(),
            evals.clone(),
            nontriv.clone(),
            found.clone(),
            samples.clone(),
            cur[w].clone(),
            exh_done.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    WORKER.with(|x| x.set(w));
                    let mut g = gen::Gen::new(&prop, seed, w, threads);
                    while !stop.load(Ordering::Relaxed) {
                        let c = match g.next() {
                            Some(c) => c,
                            None => break,
                        };
                        if g.exhausted_flag() {
                            exh_done.fetch_or(1 << w, Ordering::Relaxed);
                        }
                        *cur.lock().unwrap() = (Instant::now(), Some(c.clone()));
                        if let Some(d) = &trace {
                            let _ = std::fs::write(format!("{}/w{}.txt", d, w), c.to_text(&prop, "the process ended abnormally on this input"));
                        }
                        LIVE.with(|x| x.set(0));
                        let r = run_case(&prop, &c);
                        let el = cur.lock().unwrap().0.elapsed();
                        if el > Duration::from_millis(200) && std::env::var_os("REPLAY_SLOW").is_some() {
                            eprintln!("slow {:?} {}", el, c.to_text(&prop, "slow"));
                        }
                        cur.lock().unwrap().1 = None;
                        let k = evals.fetch_add(1, Ordering::Relaxed);
                        match r {
                            Ok(nt) => {
                                let h = hash(&c);
                                let fresh = nt && {
                                    let mut s = seen[(h & 63) as usize].lock().unwrap();
                                    s.len() < 400_000 && s.insert(h)
                                };
                                if fresh {
                                    nontriv.fetch_add(1, Ordering::Relaxed);
                                    if k % 997 == 3 {
                                        let mut s = samples.lock().unwrap();
                                        if s.len() < 5 {
                                            s.push(c)
                                        }
                                    }
                                }
                            }
                            Err(e) => {
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((c, e));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if stop.load(Ordering::Relaxed) {
            break;
        }
        if start.elapsed().as_secs_f64() > secs {
            stop.store(true, Ordering::Relaxed);
            break;
        }
        for (w, c) in cur.iter().enumerate() {
            let g = c.lock().unwrap();
            if BLOWN.load(Ordering::SeqCst) & (1 << w) != 0 {
                if let Some(case) = &g.1 {
                    let mut f = found.lock().unwrap();
                    if f.is_none() {
                        *f = Some((case.clone(), "does not terminate: more than 2 GB of memory".into()));
                    }
                    stop.store(true, Ordering::Relaxed);
                }
            }
            if let Some(case) = &g.1 {
                if g.0.elapsed() > Duration::from_secs(20) {
                    let mut f = found.lock().unwrap();
                    if f.is_none() {
                        *f = Some((case.clone(), "does not terminate within 20 s".into()));
                    }
                    stop.store(true, Ordering::Relaxed);
                }
            }
        }
    }
    // let workers finish (but do not wait for a hung one)
    let t = Instant::now();
    while hs.iter().any(|h| !h.is_finished()) && t.elapsed() < Duration::from_secs(3) {
        std::thread::sleep(Duration::from_millis(10));
    }
    let f = found.lock().unwrap().clone();
    let e = evals.load(Ordering::Relaxed);
    let n = nontriv.load(Ordering::Relaxed);
    let all = (1u64 << threads) - 1;
    println!("evaluations: {}", e);
    println!("nontrivial: {}", n);
    println!("exhaustive_part_complete: {}", exh_done.load(Ordering::Relaxed) == all);
    println!("rule: {}", gen::rule(&prop));
    for s in samples.lock().unwrap().iter() {
        println!("sample: {:?} {:?}", s.t.iter().map(|x| esc(x)).collect::<Vec<_>>(), s.n);
    }
    if let Some((c, why)) = f {
        let hang = why.starts_with("does not terminate");
        let (c, why) = if hang { (c, why) } else { shrink(&prop, c, why) };
        std::fs::write(&out, c.to_text(&prop, &why)).unwrap();
        println!("FOUND: {}", why.replace('\n', " | "));
        std::process::exit(1);
    }
    std::process::exit(0);
}

fn shrink(prop: &str, mut c: Case, mut why: String) -> (Case, String) {
    let t0 = Instant::now();
    loop {
        let mut improved = false;
        'o: for i in 0..c.t.len() {
            // drop a line
            let lines: Vec<Vec<u8>> = oracle::split(&c.t[i]).iter().map(|x| x.to_vec()).collect();
            for l in 0..lines.len() {
                let mut d = c.clone();
                let mut ls = lines.clone();
                ls.remove(l);
                d.t[i] = ls.concat();
                if let Err(e) = run_case(prop, &d) {
                    c = d;
                    why = e;
                    improved = true;
                    break 'o;
                }
            }
        }
        if !improved {
            for i in 0..c.n.len() {
                if c.n[i] > 0 {
                    let mut d = c.clone();
                    d.n[i] = if c.n[i] > 10 { c.n[i] / 2 } else { c.n[i] - 1 };
                    if let Err(e) = run_case(prop, &d) {
                        c = d;
                        why = e;
                        improved = true;
                        break;
                    }
                }
            }
        }
        if !improved || t0.elapsed() > Duration::from_secs(10) {
            return (c, why);
        }
    }
}
