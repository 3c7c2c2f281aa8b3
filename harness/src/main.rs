//! mqtt_check PROP --seed N --seconds S --threads T --src DIR [--case ID]
//! Bounded concrete search for one property on the compiled crate. Prints one JSON line.
mod gen;
mod refdec;
mod props;

use gen::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Shared {
    pub stop: AtomicBool,
    pub hit: Mutex<Option<(String, String)>>,
    pub cases: AtomicU64,
    pub checks: AtomicU64,
}
pub struct Slot { pub case: AtomicU64, pub since: AtomicU64, pub limit: AtomicU64 }

pub struct Ctx {
    pub g: G,
    pub sh: Arc<Shared>,
    pub slot: Arc<Slot>,
    pub case: u64,
    pub n: u64,
    pub t0: Instant,
}
impl Ctx {
    pub fn hit(&mut self, text: String) {
        let mut h = self.sh.hit.lock().unwrap();
        if h.is_none() { *h = Some((text, self.case.to_string())); }
        self.sh.stop.store(true, Ordering::SeqCst);
    }
    /// a slow case is allowed to take this long
    pub fn slow(&self, secs: u64) { self.slot.limit.store(secs * 1000, Ordering::SeqCst); }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a[1].clone();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = opt("--seconds").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let threads: u64 = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let one: Option<u64> = opt("--case").and_then(|s| s.parse().ok());
    let mut dict = Dict::default();
    harvest(std::path::Path::new(&opt("--src").unwrap_or("/repo/src".into())), &mut dict);
    if prop == "literals" { print!("{}", dict.list()); return; }
    dict.split();
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let sh = Arc::new(Shared { stop: AtomicBool::new(false), hit: Mutex::new(None), cases: AtomicU64::new(0), checks: AtomicU64::new(0) });
    let Some((fixed, step)) = props::plan(&prop) else { eprintln!("unknown property"); std::process::exit(2) };
    let mut slots = vec![];
    let mut hs = vec![];
    let threads = if one.is_some() { 1 } else { threads };
    for th in 0..threads {
        let slot = Arc::new(Slot { case: AtomicU64::new(0), since: AtomicU64::new(0), limit: AtomicU64::new(20000) });
        slots.push(slot.clone());
        let (sh, dict, prop) = (sh.clone(), dict.clone(), prop.clone());
        let _ = prop;
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut c = Ctx { g: G { r: Rng(0), d: dict, big: true }, sh: sh.clone(), slot: slot.clone(), case: 0, n: 0, t0 };
            let run = |c: &mut Ctx, id: u64, f: &dyn Fn(&mut Ctx)| {
                c.case = id;
                c.g.r = Rng(id.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5DEECE66D);
                for _ in 0..4 { c.g.r.next(); }
                slot.limit.store(20000, Ordering::SeqCst);
                slot.case.store(id, Ordering::SeqCst);
                slot.since.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c))) {
                    // the harness itself must not fail
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    println!("{{\"harness\": \"{}\"}}", esc(&m));
                    std::process::exit(3);
                }
                slot.since.store(0, Ordering::SeqCst);
                sh.cases.fetch_add(1, Ordering::Relaxed);
                sh.checks.fetch_add(c.n, Ordering::Relaxed);
                c.n = 0;
            };
            // the fixed part, dealt out to the threads: ids below 1000000
            if let Some(id) = one {
                if id < 1000000 { run(&mut c, id, &|c| fixed(c, id as usize)); } else { run(&mut c, id, &|c| step(c)); }
                return;
            }
            let nf = props::nfixed(&prop) as u64;
            for id in (0..nf).filter(|i| i % threads == th) {
                if sh.stop.load(Ordering::SeqCst) { return; }
                run(&mut c, id, &|c| fixed(c, id as usize));
            }
            let mut k = 0u64;
            while !sh.stop.load(Ordering::Relaxed) && t0.elapsed().as_secs_f64() < secs {
                let id = 1000000 + seed % 1000 * 1_000_000_000_000 + th * 10_000_000_000 + k;
                run(&mut c, id, &|c| step(c));
                k += 1;
            }
        }).unwrap());
    }
    // hang watchdog
    let mut hang = None;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        for s in &slots {
            let b = s.since.load(Ordering::SeqCst);
            if b != 0 && now > b + s.limit.load(Ordering::SeqCst) { hang = Some(s.case.load(Ordering::SeqCst)); }
        }
        if hang.is_some() { break; }
    }
    let mut h = sh.hit.lock().unwrap().clone();
    if h.is_none() {
        if let Some(c) = hang {
            h = Some(("the call does not return (no answer after 20 s)".into(), c.to_string()));
        }
    }
    let (cases, checks) = (sh.cases.load(Ordering::Relaxed), sh.checks.load(Ordering::Relaxed));
    match h {
        Some((t, c)) => println!("{{\"hit\": \"{}\", \"case\": \"{}\", \"cases\": {}, \"checks\": {}, \"literals\": {}, \"hang\": {}}}", esc(&t), c, cases, checks, dict.nums.len() + dict.strs.len(), hang.is_some()),
        None => println!("{{\"hit\": null, \"cases\": {}, \"checks\": {}, \"literals\": {}}}", cases, checks, dict.nums.len() + dict.strs.len()),
    }
    std::process::exit(0);
}
