//! The command line of a simulator: workers, replay, development.
use crate::core::*;

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        simrt::point(0x6000_0001);
        if simrt::shm::shm().trace != 0 && simrt::live() {
            let m = simrt::quiet(|| format!("log {}", r.args()));
            simrt::trace_msg(&m);
        }
    }
    fn flush(&self) {}
}
static LOG: Log = Log;

fn opt(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

pub fn main(scenarios: &'static [Scenario]) -> ! {
    // Addresses must not differ between executions.
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("VSIM_PERS").is_none() {
            if libc::personality(p as u64 | libc::ADDR_NO_RANDOMIZE as u64) >= 0 {
                std::env::set_var("VSIM_PERS", "1");
                use std::os::unix::process::CommandExt;
                // nor may what else the environment holds
                let keep: Vec<_> = std::env::vars_os().filter(|(k, _)| k.to_string_lossy().starts_with("VSIM_")).collect();
                let e = std::process::Command::new("/proc/self/exe")
                    .args(std::env::args_os().skip(1))
                    .env_clear()
                    .envs(keep)
                    .exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
    std::env::set_var("RAYON_NUM_THREADS", "2");
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::remove_var("REPLAY_TIMEOUT");
    simrt::setup();
    log::set_logger(&LOG).unwrap();
    log::set_max_level(if std::env::var_os("VSIM_DEBUG").is_some() { log::LevelFilter::Debug } else { log::LevelFilter::Info });
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| opt(&a, k);
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let target = get("--prop").unwrap();
            let known: Vec<String> = get("--known").map_or(vec![], |v| v.split(',').map(|s| s.to_string()).collect());
            set_ctx(RunCtx { target, known });
            let scens = get("--scen").unwrap();
            let scens = scens
                .split(',')
                .map(|s| {
                    let (n, w) = s.split_once('=').unwrap_or((s, "1"));
                    let sc = scenarios.iter().find(|x| x.name == n).expect("unknown scenario");
                    (w.parse().unwrap(), sc)
                })
                .collect();
            worker(&WorkerArgs {
                scens,
                seed: num("--seed", 1),
                idx: num("--idx", 0),
                n: num("--n", 1),
                secs: get("--secs").map_or(10.0, |v| v.parse().unwrap()),
                max_runs: num("--max-runs", u64::MAX),
                out: get("--out").unwrap(),
                thorough: a.iter().any(|x| x == "--thorough"),
            })
        }
        Some("replay") => replay(&a[2], scenarios, a.iter().any(|x| x == "--trace")),
        // development: one scenario, many seeds, every violation
        Some("dev") => {
            set_ctx(RunCtx { target: get("--prop").unwrap_or("*".into()), known: vec![] });
            let sc = scenarios.iter().find(|x| x.name == a[2]).unwrap();
            let trace = a.iter().any(|x| x == "--trace");
            let mut run = Runner::new();
            let mut st = Stats::new();
            let (from, n) = (num("--from", 0), num("--count", 100));
            let mut bad = 0;
            let t0 = std::time::Instant::now();
            for i in from..from + n {
                let seed = mixseed(num("--seed", 1), i);
                let mut rng = Rng(seed);
                rng.next();
                let env = Env { target: ctx().target.clone(), thorough: false };
                let cfg = (sc.gen)(&mut rng, &env);
                if trace {
                    println!("{cfg}");
                }
                let r = run.exec(sc, &cfg, seed, None, trace);
                st.add(sc, &r);
                if trace {
                    println!("{}", r.log);
                }
                if r.outcome != simrt::shm::OUT_DONE {
                    bad += 1;
                    println!("#{i} seed={seed} outcome={} {} {} steps={} killed={} status={:#x}", r.outcome, r.prop, r.msg, r.steps, r.killed, r.status);
                    if bad >= num("--bad", 5) {
                        break;
                    }
                } else if i % 10 == 0 {
                    let r2 = run.exec(sc, &cfg, seed, None, false);
                    let r3 = run.exec(sc, &cfg, seed, Some(r.rec.clone()), false);
                    if r.hash != r2.hash || r.steps != r2.steps {
                        println!("#{i} seed={seed} NOT REPEATABLE");
                    }
                    if r.hash != r3.hash || r.steps != r3.steps {
                        println!("#{i} seed={seed} REPLAY DIFFERS pol={} {} {} ({} decisions)", r.policy, r.steps, r3.steps, r.rec.len());
                    }
                }
            }
            if let Some(f) = std::env::var_os("VSIM_POINTS") {
                // which program points were reached, for tools/uncovered.py
                let t: String = simrt::cov::points().iter().map(|(g, pc)| format!("{:x} {}\n", pc, st.cov[*g as usize & 0xffff])).collect();
                std::fs::write(f, t).unwrap();
            }
            let mut j = st.json();
            j["cov"] = serde_json::json!(st.cov.iter().filter(|x| **x != 0).count());
            j["pairs"] = serde_json::json!(st.pairs.iter().filter(|x| **x != 0).count());
            println!("{} runs/s  {}", st.runs as f64 / t0.elapsed().as_secs_f64(), serde_json::to_string_pretty(&j).unwrap());
            0
        }
        _ => {
            for s in scenarios {
                println!("{}\t{}\t{}\t{}", s.name, s.props.join(","), s.real, s.stub);
            }
            0
        }
    };
    std::process::exit(code)
}
