//! What the scenarios share.
use crate::core::*;
use serde_json::{json, Value};
use std::path::PathBuf;

const SITE: u32 = 0x6800_0000;

/// Set once a planned panic has left shared state that panics when used.
pub static MAY_PANIC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// A panic of the code under test violates `props`; one of the harness is an
/// error of the harness.
pub fn hook(props: &'static [&'static str]) {
    std::panic::set_hook(Box::new(move |i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if l.contains("harness/src") || l.contains("vsim-") {
            simrt::harness_error(&format!("the harness panicked: {m} at {l}"));
        }
        if MAY_PANIC.load(std::sync::atomic::Ordering::Relaxed) {
            return;
        }
        let l = l.rsplit("/crates/").next().unwrap_or("").to_string();
        viol(props, "panic", &format!("panic: {m} at {l}"));
    }));
}
pub fn root() -> PathBuf {
    PathBuf::from(simrt::scratch())
}
pub fn work(n: u64) {
    for i in 0..n {
        simrt::point(SITE + (i & 0xff) as u32);
    }
}
pub fn pause(n: u64) {
    if n > 0 {
        simrt::sleep(n * 50_000);
    }
}
pub fn set_rate(o: &mut serde_json::Map<String, Value>, r: &mut Rng, pct: usize, k: &str, rates: &[u64]) {
    if r.chance(pct) {
        o.insert(k.into(), json!(*r.pick(rates)));
    }
}

/// Global state that is only touched by the one running simulated thread.
pub struct Racy<T>(pub std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Racy<T> {}
impl<T> Racy<T> {
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

/// Runs the operations of `cfg`: every (process, thread) pair runs its own in
/// order; `cfg.crash` lists [process, after how many of its steps].
pub fn run_actors(cfg: &Value, f: fn(&Value, usize, &Value)) {
    let np = cfg["procs"].as_u64().unwrap() as usize;
    let nt = cfg["threads"].as_u64().unwrap() as usize;
    let mut ids = vec![];
    for p in 0..np {
        ids.push(simrt::spawn_proc(move || {
            let mut hs = vec![];
            for t in 1..nt {
                let c = cfg.clone();
                hs.push(std::thread::spawn(move || one(&c, p, t, f)));
            }
            one(cfg, p, 0, f);
            for h in hs {
                let _ = h.join();
            }
        }));
    }
    for c in cfg["crash"].as_array().into_iter().flatten() {
        let p = c[0].as_u64().unwrap() as usize;
        if p < np {
            simrt::crash_after(ids[p], c[1].as_u64().unwrap());
        }
    }
    for p in ids {
        simrt::wait_proc(p);
    }
}
fn one(cfg: &Value, p: usize, t: usize, f: fn(&Value, usize, &Value)) {
    for op in cfg["ops"].as_array().unwrap() {
        if op["p"] == p && op["t"] == t {
            f(cfg, p * 4 + t, op);
        }
    }
}
pub fn any_crash() -> bool {
    simrt::shm::shm().procs.iter().any(|p| p.crashed != 0)
}
/// The simulated process number of an actor.
pub fn proc_of(actor: usize) -> usize {
    actor / 4 + 1
}
pub fn gen_crash(r: &mut Rng, np: usize, pct: usize, span: usize) -> Value {
    let mut v = vec![];
    for p in 0..np {
        if r.chance(pct) {
            v.push(json!([p, 1 + r.below(span)]));
        }
    }
    json!(v)
}
