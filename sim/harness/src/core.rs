//! Seeded search over simulated runs, minimisation of what it finds, replay.
use serde_json::{json, Value};
use simrt::shm::*;
use simrt::{RunResult, RunSpec};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        simrt::sched::splitmix(&mut self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn weighted<'a, T>(&mut self, v: &'a [(usize, T)]) -> &'a T {
        let sum: usize = v.iter().map(|x| x.0).sum();
        let mut k = self.below(sum);
        for (w, t) in v {
            if k < *w {
                return t;
            }
            k -= w;
        }
        unreachable!()
    }
}
pub fn mixseed(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678;
    simrt::sched::splitmix(&mut x)
}

pub struct Scenario {
    pub name: &'static str,
    /// The properties whose violations this scenario can report.
    pub props: &'static [&'static str],
    /// Those that a run violates which never comes to an end.
    pub hang: &'static [&'static str],
    /// Those that a run violates in which the process dies.
    pub crash: &'static [&'static str],
    pub maxsteps: u64,
    pub gen: fn(&mut Rng, &Env) -> Value,
    pub run: fn(&Value),
    pub real: &'static str,
    pub stub: &'static str,
}

pub struct Env {
    pub target: String,
    pub thorough: bool,
}

/// What the code inside a run needs to know; set before the fork.
pub struct RunCtx {
    pub target: String,
    pub known: Vec<String>,
}
static mut CTX: Option<RunCtx> = None;
pub fn ctx() -> &'static RunCtx {
    #[allow(static_mut_refs)]
    unsafe {
        CTX.as_ref().unwrap()
    }
}
pub fn set_ctx(c: RunCtx) {
    unsafe { CTX = Some(c) }
}

/// Reports a violation of every property in `props`. It ends the run if the
/// property under check is among them.
pub fn viol(props: &[&str], sig: &str, msg: &str) {
    let c = ctx();
    let hit = if c.target == "*" { Some(props[0]) } else { props.iter().find(|p| **p == c.target).copied() };
    match hit {
        Some(p) => {
            if c.known.iter().any(|k| k == sig) {
                shm().umem[41] += 1;
                return;
            }
            simrt::violate(p, &format!("[{sig}] {}", msg.replace(simrt::scratch(), "<scratch>")))
        }
        None => shm().umem[40] += 1,
    }
}

pub fn rates_of(cfg: &Value) -> Vec<(u32, u32)> {
    let mut v = vec![];
    if let Some(m) = cfg["rates"].as_object() {
        for (k, r) in m {
            let id = simrt::sched::FAULT_NAMES
                .iter()
                .find(|(_, n)| n == k)
                .unwrap_or_else(|| panic!("unknown fault {k}"))
                .0;
            v.push((id, r.as_u64().unwrap() as u32));
        }
    }
    v
}

pub struct Runner {
    pub scratch: String,
    pub nrun: u64,
}
impl Runner {
    pub fn new() -> Self {
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        unsafe {
            // one thread runs at a time: hand-overs are cheapest on one core
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            let n = std::thread::available_parallelism().map_or(1, |n| n.get());
            let pid = libc::syscall(libc::SYS_getpid) as usize;
            let i = std::env::var("VSIM_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(pid) % n;
            libc::CPU_SET(i, &mut set);
            if std::env::var_os("VSIM_NOPIN").is_none() {
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
        }
        let scratch = format!("{base}/vsim-{}", unsafe { libc::syscall(libc::SYS_getpid) });
        let _ = std::fs::remove_dir_all(&scratch);
        std::fs::create_dir_all(&scratch).unwrap();
        Runner { scratch, nrun: 0 }
    }
    pub fn exec(&mut self, sc: &Scenario, cfg: &Value, seed: u64, dec: Option<Vec<(u64, u64)>>, trace: bool) -> RunResult {
        self.nrun += 1;
        // A path of constant length: it must not change what a run does.
        let dir = format!("{}/w", self.scratch);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let spec = RunSpec {
            seed,
            replay: dec,
            rates: rates_of(cfg),
            maxsteps: sc.maxsteps,
            trace,
            scratch: dir.clone(),
            wall_limit_s: 10,
        };
        let f = sc.run;
        let mut r = simrt::execute(&spec, &|| crate::ALLOC.enter_run(), &|| f(cfg));
        if r.outcome == OUT_STEPS || r.outcome == OUT_DEADLOCK || (r.killed && r.outcome == OUT_NONE) {
            // no progress although the faults have stopped and the schedule is fair
            let t = &ctx().target;
            let p = if t == "*" { sc.hang.first().copied() } else { sc.hang.iter().find(|p| *p == t).copied() };
            if let Some(p) = p {
                let why = match r.outcome {
                    OUT_STEPS => "the run does not end although faults have stopped and scheduling is fair",
                    OUT_DEADLOCK => "every thread is blocked for ever",
                    _ => "the run hangs in a computation without a scheduling point",
                };
                if !ctx().known.iter().any(|k| k == "hang") {
                    r.outcome = OUT_VIOLATION;
                    r.prop = p.to_string();
                    r.msg = format!("[hang] {why}; {}", r.msg);
                }
            }
        } else if r.outcome == OUT_NONE {
            let t = &ctx().target;
            let p = if t == "*" { sc.crash.first().copied() } else { sc.crash.iter().find(|p| *p == t).copied() };
            if let Some(p) = p {
                r.outcome = OUT_VIOLATION;
                r.prop = p.to_string();
                r.msg = format!("[death] the process died (wait status {:#x})", r.status);
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        r
    }
}
impl Drop for Runner {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.scratch);
    }
}

fn sig_of(msg: &str) -> &str {
    msg.split(']').next().unwrap_or("")
}
fn same(r: &RunResult, prop: &str, sig: &str) -> bool {
    r.outcome == OUT_VIOLATION && r.prop == prop && sig_of(&r.msg) == sig
}

pub struct Found {
    pub scen: String,
    pub seed: u64,
    pub cfg: Value,
    pub dec: Vec<(u64, u64)>,
    pub res: RunResult,
    pub notes: Value,
}

/// Shrinks the operations, then the decisions, keeping the same violation.
pub fn minimise(run: &mut Runner, sc: &Scenario, mut cfg: Value, mut seed: u64, first: RunResult, budget: Duration) -> Option<Found> {
    let t0 = Instant::now();
    let (prop, sig) = (first.prop.clone(), sig_of(&first.msg).to_string());
    let replays0 = run.nrun;
    let mut best = first.clone();
    let rep = run.exec(sc, &cfg, seed, Some(best.rec.clone()), false);
    if !same(&rep, &prop, &sig) {
        // Too many decisions to record, or a hang cut by the wall clock.
        let again = run.exec(sc, &cfg, seed, None, false);
        if !same(&again, &prop, &sig) {
            return None;
        }
        return Some(Found {
            scen: sc.name.into(),
            seed,
            cfg,
            dec: vec![],
            res: again,
            notes: json!({"by_seed": true}),
        });
    }
    let ops0 = cfg["ops"].as_array().map_or(0, |a| a.len());
    let dec0 = best.rec.len();
    // operations
    let mut n = 2usize;
    while t0.elapsed() < budget / 2 {
        let ops = match cfg["ops"].as_array() {
            Some(o) if o.len() > 1 => o.clone(),
            _ => break,
        };
        let chunk = ops.len().div_ceil(n);
        let mut shrunk = false;
        let mut i = 0;
        while i < ops.len() && t0.elapsed() < budget / 2 {
            let mut o = ops.clone();
            o.drain(i..(i + chunk).min(ops.len()));
            let mut c = cfg.clone();
            c["ops"] = Value::Array(o);
            let mut hit = None;
            let r = run.exec(sc, &c, seed, Some(best.rec.clone()), false);
            if same(&r, &prop, &sig) {
                hit = Some((seed, r));
            }
            for k in 0..24u64 {
                if hit.is_some() || t0.elapsed() > budget / 2 {
                    break;
                }
                let s2 = mixseed(seed, 0x5eed_0000 + k);
                let r = run.exec(sc, &c, s2, None, false);
                if same(&r, &prop, &sig) {
                    let r2 = run.exec(sc, &c, s2, Some(r.rec.clone()), false);
                    if same(&r2, &prop, &sig) {
                        hit = Some((s2, r));
                    }
                }
            }
            if let Some((s2, r)) = hit {
                cfg = c;
                seed = s2;
                best = r;
                shrunk = true;
                break;
            }
            i += chunk;
        }
        if shrunk {
            n = 2.max(n - 1);
        } else if chunk <= 1 {
            break;
        } else {
            n = (n * 2).min(ops.len());
        }
    }
    // decisions
    let mut dec = best.rec.clone();
    let r = run.exec(sc, &cfg, seed, Some(vec![]), false);
    if same(&r, &prop, &sig) {
        dec = vec![];
    }
    let mut n = 2usize;
    while dec.len() > 0 && t0.elapsed() < budget {
        let chunk = dec.len().div_ceil(n);
        let mut shrunk = false;
        let mut i = 0;
        while i < dec.len() && t0.elapsed() < budget {
            let mut d = dec.clone();
            d.drain(i..(i + chunk).min(dec.len()));
            let r = run.exec(sc, &cfg, seed, Some(d.clone()), false);
            if same(&r, &prop, &sig) {
                dec = d;
                shrunk = true;
                break;
            }
            i += chunk;
        }
        if shrunk {
            n = 2.max(n - 1);
        } else if chunk <= 1 {
            break;
        } else {
            n = (n * 2).min(dec.len());
        }
    }
    let res = run.exec(sc, &cfg, seed, Some(dec.clone()), true);
    if !same(&res, &prop, &sig) {
        return None;
    }
    let ops1 = cfg["ops"].as_array().map_or(0, |a| a.len());
    Some(Found {
        scen: sc.name.into(),
        seed,
        cfg,
        notes: json!({"ops": [ops0, ops1], "decisions": [dec0, dec.len()], "runs": run.nrun - replays0}),
        dec,
        res,
    })
}

pub fn decisions_json(d: &[(u64, u64)]) -> Value {
    Value::Array(
        d.iter()
            .map(|(k, v)| {
                let n = k & ((1 << 56) - 1);
                match k >> 56 {
                    1 => json!({"at_step": n, "run_thread": v & 0xffff, "leap_clock": v >> 32}),
                    2 => json!({"at_block": n, "run_thread": v & 0xffff}),
                    f => {
                        let name = simrt::sched::FAULT_NAMES.iter().find(|x| x.0 as u64 == f - 16).map_or("?", |x| x.1);
                        json!({"fault": name, "occurrence": n, "value": v})
                    }
                }
            })
            .collect(),
    )
}
pub fn decisions_parse(v: &Value) -> Vec<(u64, u64)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|d| {
            if let Some(n) = d["at_step"].as_u64() {
                (1 << 56 | n, d["run_thread"].as_u64().unwrap() | d["leap_clock"].as_u64().unwrap_or(0) << 32)
            } else if let Some(n) = d["at_block"].as_u64() {
                (2 << 56 | n, d["run_thread"].as_u64().unwrap())
            } else {
                let name = d["fault"].as_str().unwrap();
                let f = simrt::sched::FAULT_NAMES.iter().find(|x| x.1 == name).unwrap().0 as u64;
                ((16 + f) << 56 | d["occurrence"].as_u64().unwrap(), d["value"].as_u64().unwrap())
            }
        })
        .collect()
}

pub struct Stats {
    pub runs: u64,
    pub by: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub threads: u64,
    pub fired: [u64; NFAULT],
    pub probe: [u64; NPROBE],
    pub orders: HashSet<u64>,
    pub cov: Vec<u8>,
    pub pairs: Vec<u8>,
    pub policy: [u64; 5],
    pub recheck: u64,
    pub nondet: u64,
    pub other: u64,
    pub known: u64,
    pub unconfirmed: u64,
    pub maxsteps: u64,
    pub fair_phase: u64,
    pub errors: Vec<String>,
    pub samples: Vec<Value>,
}
impl Stats {
    pub fn new() -> Self {
        Stats {
            runs: 0,
            by: Default::default(),
            outcomes: Default::default(),
            steps: 0,
            switches: 0,
            sim_ns: 0,
            threads: 0,
            fired: [0; NFAULT],
            probe: [0; NPROBE],
            orders: Default::default(),
            cov: vec![0; 1 << 16],
            pairs: vec![0; 1 << 16],
            policy: [0; 5],
            recheck: 0,
            nondet: 0,
            other: 0,
            known: 0,
            unconfirmed: 0,
            maxsteps: 0,
            fair_phase: 0,
            errors: vec![],
            samples: vec![],
        }
    }
    pub fn add(&mut self, sc: &Scenario, r: &RunResult) {
        let s = shm();
        self.runs += 1;
        *self.by.entry(sc.name.into()).or_default() += 1;
        let o = match r.outcome {
            OUT_DONE => "done",
            OUT_VIOLATION => "violation",
            OUT_DEADLOCK => "deadlock",
            OUT_STEPS => "steps",
            OUT_HARNESS => "harness",
            _ => "died",
        };
        *self.outcomes.entry(o.into()).or_default() += 1;
        self.steps += r.steps;
        self.maxsteps = self.maxsteps.max(r.steps);
        self.switches += r.switches;
        self.sim_ns += r.now;
        self.threads += r.threads as u64;
        self.orders.insert(r.order);
        self.policy[r.policy as usize % 5] += 1;
        self.other += s.umem[40];
        self.known += s.umem[41];
        for i in 0..NFAULT {
            self.fired[i] += s.fired[i];
        }
        for i in 0..NPROBE {
            self.probe[i] += s.probe[i];
        }
        for i in 0..1 << 16 {
            self.cov[i] |= s.cov[i];
            self.pairs[i] |= s.pairs[i];
        }
        self.fair_phase += s.umem[42];
        if r.outcome == OUT_HARNESS || (r.outcome == OUT_NONE) || r.outcome == OUT_DEADLOCK || r.outcome == OUT_STEPS {
            if self.errors.len() < 5 {
                self.errors.push(format!("{o}: {} status={:#x} killed={}", r.msg, r.status, r.killed));
            }
        }
        if r.escapes > 0 && self.errors.len() < 5 {
            self.errors.push(format!("{} refused paths", r.escapes));
        }
    }
    pub fn json(&self) -> Value {
        let faults: BTreeMap<&str, u64> = simrt::sched::FAULT_NAMES
            .iter()
            .filter(|(i, _)| self.fired[*i as usize] > 0)
            .map(|(i, n)| (*n, self.fired[*i as usize]))
            .collect();
        let probes: BTreeMap<&str, u64> =
            crate::probes::NAMES.iter().enumerate().map(|(i, n)| (*n, self.probe[i])).filter(|x| x.1 > 0).collect();
        let hex = |b: &[u8]| -> String {
            b.chunks(8).map(|c| format!("{:02x}", c.iter().enumerate().fold(0u8, |a, (i, x)| a | (x & 1) << i))).collect()
        };
        json!({
            "runs": self.runs, "by_scenario": self.by, "outcomes": self.outcomes, "steps": self.steps,
            "switches": self.switches, "sim_ns": self.sim_ns, "threads": self.threads, "faults": faults,
            "probes": probes, "orders": self.orders.len(), "policy": self.policy, "recheck": self.recheck,
            "nondet": self.nondet, "other": self.other, "known": self.known, "unconfirmed": self.unconfirmed,
            "errors": self.errors, "maxsteps": self.maxsteps, "fair_phase": self.fair_phase,
            "guards": simrt::cov::guards(), "cov": hex(&self.cov), "pairs": hex(&self.pairs), "samples": self.samples,
        })
    }
}

pub struct WorkerArgs {
    pub scens: Vec<(u64, &'static Scenario)>,
    pub seed: u64,
    pub idx: u64,
    pub n: u64,
    pub secs: f64,
    pub max_runs: u64,
    pub out: String,
    pub thorough: bool,
}
pub fn worker(a: &WorkerArgs) -> i32 {
    let mut run = Runner::new();
    let mut st = Stats::new();
    let t0 = Instant::now();
    let env = Env { target: ctx().target.clone(), thorough: a.thorough };
    let total: u64 = a.scens.iter().map(|x| x.0).sum();
    let mut found = None;
    let mut i = a.idx;
    let stop = std::path::Path::new(&a.out).with_file_name("stop");
    while t0.elapsed().as_secs_f64() < a.secs && st.runs < a.max_runs && !stop.exists() {
        let seed = mixseed(a.seed, i);
        i += a.n;
        let mut rng = Rng(seed);
        let mut k = rng.next() % total;
        let mut sc = a.scens[0].1;
        for (w, s) in &a.scens {
            if k < *w {
                sc = s;
                break;
            }
            k -= w;
        }
        let cfg = (sc.gen)(&mut rng, &env);
        let r = run.exec(sc, &cfg, seed, None, false);
        st.add(sc, &r);
        if st.samples.len() < 3 && r.outcome == OUT_DONE && st.runs % 7 == 1 {
            st.samples.push(json!({"seed": seed.to_string(), "scenario": sc.name, "threads": r.threads, "procs": r.procs,
                "steps": r.steps, "switches": r.switches, "sim_ms": r.now as f64 / 1e6,
                "decisions": r.rec.len(), "input": clip(&cfg)}));
        }
        if st.runs % 50 == 3 && r.outcome == OUT_DONE {
            // the same seed again: it must be the same execution
            let r2 = run.exec(sc, &cfg, seed, None, false);
            st.recheck += 1;
            if r2.hash != r.hash || r2.outcome != r.outcome || r2.steps != r.steps {
                st.nondet += 1;
                if st.errors.len() < 8 {
                    st.errors.push(format!("not repeatable: {} seed {seed}", sc.name));
                }
            }
        }
        if r.outcome == OUT_VIOLATION {
            let budget = Duration::from_secs(if a.thorough { 90 } else { 40 });
            match minimise(&mut run, sc, cfg, seed, r, budget) {
                Some(f) => {
                    found = Some(f);
                    let _ = std::fs::write(&stop, b"");
                    break;
                }
                None => st.unconfirmed += 1,
            }
        }
    }
    let mut out = st.json();
    out["wall"] = json!(t0.elapsed().as_secs_f64());
    if let Some(f) = &found {
        out["found"] = found_json(f);
    }
    let orders: Vec<u8> = st.orders.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(format!("{}.orders", a.out), orders).unwrap();
    std::fs::write(&a.out, serde_json::to_vec(&out).unwrap()).unwrap();
    found.is_some() as i32
}
fn clip(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() > 900 {
        Value::String(format!("{}…", s.chars().take(900).collect::<String>()))
    } else {
        v.clone()
    }
}
pub fn found_json(f: &Found) -> Value {
    let log: Vec<&str> = f.res.log.lines().collect();
    let tail = log.len().saturating_sub(400);
    json!({
        "property": f.res.prop, "scenario": f.scen, "seed": f.seed.to_string(), "violation": f.res.msg,
        "config": f.cfg, "decisions": decisions_json(&f.dec), "by_seed": f.notes["by_seed"].as_bool().unwrap_or(false),
        "hash": format!("{:016x}", f.res.hash), "steps": f.res.steps, "sim_ms": f.res.now as f64 / 1e6,
        "minimisation": f.notes, "trace": log[tail..].to_vec(),
    })
}
/// Replays a file; 1 if the violation comes back exactly, 0 if it does not.
pub fn replay(path: &str, scens: &[Scenario], trace: bool) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("cannot read the replay file")).unwrap();
    let sc = scens.iter().find(|s| s.name == v["scenario"].as_str().unwrap()).expect("unknown scenario");
    let seed: u64 = v["seed"].as_str().unwrap().parse().unwrap();
    set_ctx(RunCtx { target: v["property"].as_str().unwrap().into(), known: vec![] });
    let dec = if v["by_seed"].as_bool().unwrap_or(false) { None } else { Some(decisions_parse(&v["decisions"])) };
    let mut run = Runner::new();
    let r = run.exec(sc, &v["config"], seed, dec, trace);
    if trace {
        println!("{}", r.log);
    }
    println!("outcome={} property={} hash={:016x} steps={}\n{}", r.outcome, r.prop, r.hash, r.steps, r.msg);
    if r.outcome == OUT_VIOLATION && r.prop == v["property"].as_str().unwrap() {
        if v["hash"].as_str() == Some(&format!("{:016x}", r.hash)) {
            println!("reproduced exactly");
        } else {
            println!("reproduced, by a different execution");
        }
        return 1;
    }
    0
}
