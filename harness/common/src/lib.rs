//! Scenario runner shared by the replay/bounded harnesses.
//! usage: <bin> run PROP TIER SEED | replay PROP SCENARIO CASESEED
//! Prints one line per failing case: FAIL<TAB>scenario<TAB>caseseed<TAB>detail
//! KNOWN<TAB>id<TAB>detail for a finding that the scenario itself identifies by name,
//! and CASES<TAB>scenario<TAB>n<TAB>distinct at the end of every scenario.
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub type R = StdRng;
pub type Out = Result<(), String>;

#[derive(Clone)]
pub struct Sc {
    pub prop: &'static str,
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub f: fn(&mut R, u32) -> Out,
}

static PANIC: Mutex<String> = Mutex::new(String::new());

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_add(b.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn one(sc: &Sc, case: u32, seed: u64) -> Out {
    let mut r = StdRng::seed_from_u64(mix(seed, case as u64));
    match catch_unwind(AssertUnwindSafe(|| (sc.f)(&mut r, case))) {
        Ok(o) => o,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() };
            let at = PANIC.lock().map(|g| g.clone()).unwrap_or_default();
            Err(format!("panic: {} at {}", m, at))
        }
    }
}

/// run `f`, turning a panic of the code under test into Err
pub fn nopanic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => { let at = PANIC.lock().map(|g| g.clone()).unwrap_or_default(); Err(format!("{}: panicked at {}", what, at)) }
    }
}

pub fn known(id: &str, detail: &str) { println!("KNOWN\t{}\t{}", id, detail.replace('\n', " ").replace('\t', " ")); }

pub fn main(scs: &[Sc]) {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut g) = PANIC.lock() { *g = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(); }
    }));
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 3 && a[1] == "list" {
        for sc in scs.iter().filter(|s| s.prop == a[2]) { println!("SC\t{}\t{}", sc.name, if a[3] == "thorough" { sc.thorough } else { sc.quick }); }
        return;
    }
    if a.len() < 4 { eprintln!("usage: run PROP TIER SEED | replay PROP SCENARIO CASE SEED"); std::process::exit(2); }
    let mut bad = false;
    if a[1] == "replay" {
        let case: u32 = a[4].parse().unwrap(); let seed: u64 = a[5].parse().unwrap();
        for sc in scs.iter().filter(|s| s.prop == a[2] && s.name == a[3]) {
            match one(sc, case, seed) {
                Ok(()) => println!("PASS\t{}", sc.name),
                Err(e) => { bad = true; println!("FAIL\t{}\t{}\t{}\t{}", sc.name, case, seed, e.replace('\n', " ").replace('\t', " ")); }
            }
        }
    } else {
        let seed: u64 = a[4].parse().unwrap();
        let thorough = a[3] == "thorough";
        let budget = std::env::var("H_BUDGET").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(if thorough { 600 } else { 60 });
        let list: Vec<&Sc> = scs.iter().filter(|s| s.prop == a[2]).collect();
        let t0 = std::time::Instant::now();
        // scenarios x cases spread over the cores
        let mut work: Vec<(usize, u32)> = Vec::new();
        for (i, sc) in list.iter().enumerate() { for c in 0..(if thorough { sc.thorough } else { sc.quick }) { work.push((i, c)); } }
        work.sort_by_key(|w| w.1);
        let next = std::sync::atomic::AtomicUsize::new(0);
        let done: Vec<std::sync::atomic::AtomicUsize> = list.iter().map(|_| Default::default()).collect();
        let fails: Vec<std::sync::atomic::AtomicUsize> = list.iter().map(|_| Default::default()).collect();
        let nth = std::env::var("H_THREADS").ok().and_then(|x| x.parse::<usize>().ok()).unwrap_or(8);
        let (work, list, next_r, done_r, fails_r) = (&work, &list, &next, &done, &fails);
        let hs: Vec<usize> = (0..nth).collect();
        let any = std::sync::atomic::AtomicBool::new(false);
        let any_r = &any;
        std::thread::scope(|s| {
            for _ in hs {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || loop {
                    let k = next_r.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= work.len() || t0.elapsed().as_secs() > budget { break; }
                    let (i, c) = work[k];
                    let sc = list[i];
                    if fails_r[i].load(std::sync::atomic::Ordering::SeqCst) >= 3 { continue; }
                    let o = one(sc, c, seed);
                    done_r[i].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if let Err(e) = o {
                        fails_r[i].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        any_r.store(true, std::sync::atomic::Ordering::SeqCst);
                        println!("FAIL\t{}\t{}\t{}\t{}", sc.name, c, seed, e.replace('\n', " ").replace('\t', " "));
                    }
                }).unwrap();
            }
        });
        for (i, sc) in list.iter().enumerate() { println!("CASES\t{}\t{}", sc.name, done[i].load(std::sync::atomic::Ordering::SeqCst)); }
        bad = any.load(std::sync::atomic::Ordering::SeqCst);
    }
    std::process::exit(if bad { 1 } else { 0 });
}

pub fn range(r: &mut R, lo: usize, hi: usize) -> usize { if hi <= lo { lo } else { r.gen_range(lo, hi) } }
pub fn coin(r: &mut R) -> bool { r.gen() }
/// random subset of 0..n as sorted indexes
pub fn subset(r: &mut R, n: usize) -> Vec<usize> { let m = range(r, 0, 4); (0..n).filter(|_| match m { 0 => false, 1 => true, _ => r.gen() }).collect() }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } } }
