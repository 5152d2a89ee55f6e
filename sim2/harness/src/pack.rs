//! Packages: processes and threads that ask for packages, share the
//! directories they are kept in, crash, and meet a failing network and disk.
use crate::core::*;
use crate::probes::{hit, P};
use crate::root;
use crate::util::{any_crash, gen_crash, hook, pause, run_actors, set_rate, Racy};
use serde_json::{json, Map, Value};
use simrt::sched::*;
use simrt::shm::shm;
use std::collections::BTreeMap;
use std::path::Path;
use tinymist_package::registry::{HttpRegistry, PackageRegistry};
use typst::diag::PackageError;
use typst::syntax::package::PackageSpec;

const PROPS: &[&str] = &["P01"];
/// namespace, name, version, on the server, among the local packages
const SPECS: [(&str, &str, &str, bool, bool); 8] = [
    ("preview", "alpha", "0.1.0", true, false),
    ("preview", "alpha", "0.10.0", true, false),
    ("preview", "alpha", "0.9.1", true, false),
    ("preview", "beta", "1.0.0", true, true),
    ("preview", "gone", "2.0.0", false, false),
    ("local", "own", "0.2.0", false, true),
    ("local", "own", "0.12.0", false, true),
    ("local", "none", "0.1.0", false, false),
];
const NS: usize = SPECS.len();
const INDEX: usize = NS;
// shared memory: requests so far, and of those the ones answered badly, by url
const ASKED: usize = 0;
const BAD: usize = 16;
const KIND: usize = 32; // per url: kinds of the bad answers, as bits
const DISK: &[u32] = &[F_OPEN, F_META, F_RENAME, F_ENOSPC, F_EIO_W, F_EIO_R, F_UNLINK, F_TEMPCLASH];

fn spec(i: usize) -> PackageSpec {
    let (ns, name, v, ..) = SPECS[i];
    format!("@{ns}/{name}:{v}").parse().unwrap()
}
fn files(i: usize, local: bool) -> Vec<(String, Vec<u8>)> {
    let mut r = Rng(0x9ac4 + i as u64 * 2 + local as u64);
    let mut v = vec![];
    let body = |r: &mut Rng, n: &str| {
        let k = *r.weighted(&[(2, 0), (4, 30), (2, 200)]) + r.below(20);
        format!("{n} of {i} {local} {}", "x".repeat(k)).into_bytes()
    };
    v.push(("typst.toml".to_string(), body(&mut r, "typst.toml")));
    if r.chance(60) {
        v.push(("src/".into(), vec![]));
    }
    for n in ["src/lib.typ", "src/a/b.typ", "README.md", "lib.typ"] {
        if r.chance(70) {
            v.push((n.into(), body(&mut r, n)));
        }
    }
    v
}

pub fn gen_package(r: &mut Rng, e: &Env) -> Value {
    let np = r.range(1, 3);
    let nt = r.range(if np == 1 { 2 } else { 1 }, 3);
    let fav = r.below(4);
    let ops: Vec<Value> = (0..r.range(3, if e.thorough { 20 } else { 12 }))
        .map(|_| {
            let k = *r.weighted(&[(12, "get"), (2, "latest"), (1, "index"), (2, "again")]);
            let s = if r.chance(65) { fav } else { r.below(NS) };
            json!({"p": r.below(np), "t": r.below(nt), "k": k, "s": s, "wait": if r.chance(60) { 0 } else { r.below(8) }})
        })
        .collect();
    let bad = r.chance(60);
    let plan: Vec<Value> = (0..r.range(1, 8))
        .map(|_| {
            let kind = if bad { *r.weighted(&[(5, "ok"), (2, "cut"), (1, "corrupt"), (1, "404"), (1, "500"), (1, "down"), (1, "short")]) } else { "ok" };
            json!([kind, r.below(1001), *r.pick(&[7, 64, 4000])])
        })
        .collect();
    let lat: Vec<u64> = (0..r.range(1, 4)).map(|_| *r.weighted(&[(5, 0), (2, 1), (1, 40), (1, 3000)])).collect();
    let mut rates = Map::new();
    if r.chance(50) {
        set_rate(&mut rates, r, 30, "write_eintr", &[50, 300]);
        set_rate(&mut rates, r, 40, "short_write", &[100, 500]);
        set_rate(&mut rates, r, 20, "disk_full", &[20, 100]);
        set_rate(&mut rates, r, 20, "write_error", &[20, 100]);
        set_rate(&mut rates, r, 20, "open_error", &[20, 100]);
        set_rate(&mut rates, r, 20, "rename_error", &[100, 400]);
        set_rate(&mut rates, r, 20, "metadata_syscall_error", &[30, 150]);
        set_rate(&mut rates, r, 20, "unlink_error", &[100, 400]);
    }
    set_rate(&mut rates, r, 20, "spurious_futex_wake", &[100]);
    json!({"procs": np, "threads": nt, "ops": ops, "plan": plan, "lat": lat, "rates": rates, "junk": r.chance(30),
        "crash": if r.chance(40) { gen_crash(r, np, 50, 900) } else { json!([]) }})
}

static CFG: Racy<Option<Value>> = Racy(std::cell::UnsafeCell::new(None));
static REG: Racy<Option<HttpRegistry>> = Racy(std::cell::UnsafeCell::new(None));
static LAT: Racy<usize> = Racy(std::cell::UnsafeCell::new(0));
fn url_of(i: usize) -> String {
    let (_, n, v, ..) = SPECS[i];
    format!("https://packages.typst.org/preview/{n}-{v}.tar.gz")
}
fn kind_bit(k: &str) -> u64 {
    1 << ["cut", "corrupt", "404", "500", "down", "short"].iter().position(|x| *x == k).unwrap()
}
fn serve(url: &str) -> Option<reqwest::Reply> {
    let Some(i) = (0..NS).find(|i| url == url_of(*i)).or((url == "https://packages.typst.org/preview/index.json").then_some(INDEX)) else {
        viol(PROPS, "url", &format!("the server is asked for {url}"));
        return None;
    };
    let s = shm();
    let n = s.smem[ASKED + i];
    s.smem[ASKED + i] += 1;
    let cfg = CFG.get().as_ref().unwrap();
    let plan = cfg["plan"].as_array().unwrap();
    let p = if s.faults_on == 0 { json!(["ok", 0, 64]) } else { plan[(n as usize + i) % plan.len()].clone() };
    let kind = p[0].as_str().unwrap();
    let mut body = if i == INDEX {
        let mut v: Vec<Value> = vec![];
        for (ns, name, ver, there, _) in SPECS {
            if there && ns == "preview" {
                v.push(json!({"name": name, "version": ver, "description": "d", "other": 1}));
            }
        }
        serde_json::to_vec(&v).unwrap()
    } else {
        let ar = tar::build(&files(i, false));
        flate2::read::encode(&ar, 50)
    };
    let chunk = p[2].as_u64().unwrap() as usize;
    if i != INDEX && !SPECS[i].3 {
        s.smem[BAD + i] += 1;
        s.smem[KIND + i] |= kind_bit("404");
        return Some(reqwest::Reply { status: 404, body: b"no".to_vec(), cut: None, chunk });
    }
    let at = body.len() * p[1].as_u64().unwrap() as usize / 1001;
    let (mut status, mut cut) = (200, None);
    if kind != "ok" {
        s.smem[BAD + i] += 1;
        s.smem[KIND + i] |= kind_bit(kind);
    }
    match kind {
        "cut" => {
            count_fault(F_EOF);
            cut = Some(at)
        }
        // the server itself has only part of it
        "short" => {
            count_fault(F_EOF);
            body.truncate(at)
        }
        "corrupt" => {
            count_fault(F_GARBAGE);
            body[at] ^= 0x5a;
            // what is not protected is not corrupted
            if i == INDEX {
                body.truncate(at);
            }
        }
        "404" => status = 404,
        "500" => status = 503,
        "down" => {
            count_fault(F_DROP);
            return None;
        }
        _ => {}
    }
    hit(P::packages_served);
    Some(reqwest::Reply { status, body, cut, chunk })
}
fn wait() {
    let cfg = CFG.get().as_ref().unwrap();
    let lat = cfg["lat"].as_array().unwrap();
    let n = LAT.get();
    *n += 1;
    let ms = lat[*n % lat.len()].as_u64().unwrap();
    if ms > 0 {
        simrt::sleep(ms * 1_000_000);
    }
}
fn lay(dir: &Path, files: &[(String, Vec<u8>)]) {
    for (n, b) in files {
        let p = dir.join(n);
        if n.ends_with('/') {
            std::fs::create_dir_all(&p).unwrap();
        } else {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, b).unwrap();
        }
    }
}
/// What is in a directory.
fn tree(dir: &Path, pre: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    let Ok(es) = std::fs::read_dir(dir) else { return };
    for e in es.flatten() {
        let n = format!("{pre}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            out.insert(format!("{n}/"), vec![]);
            tree(&e.path(), &format!("{n}/"), out);
        } else {
            out.insert(n, std::fs::read(e.path()).unwrap_or_default());
        }
    }
}
fn whole(i: usize, dir: &Path, when: &str) {
    let (ns, name, v, _, local) = SPECS[i];
    let base = root().join(if local { "data/typst/packages" } else { "cache/typst/packages" });
    let at = base.join(ns).join(name).join(v);
    if dir != at {
        return viol(PROPS, "place", &format!("{} is said to be at {dir:?} rather than {at:?}", spec(i)));
    }
    let bad = simrt::quiet(|| {
        let mut got = BTreeMap::new();
        tree(dir, "", &mut got);
        got.retain(|n, _| !n.ends_with('/'));
        let want: BTreeMap<String, Vec<u8>> = files(i, local).into_iter().filter(|(n, _)| !n.ends_with('/')).collect();
        (got != want).then(|| {
            let part: Vec<String> = want.iter().filter(|(n, b)| got.get(*n) != Some(*b)).map(|(n, b)| format!("{n}: {:?} of {} bytes", got.get(n).map(|g| g.len()), b.len())).collect();
            let more: Vec<&String> = got.keys().filter(|n| !want.contains_key(*n)).collect();
            format!("wrong are {part:?}, unexpected are {more:?}")
        })
    });
    hit(P::packages_checked);
    if let Some(b) = bad {
        viol(PROPS, "whole", &format!("{when} the directory of {} is not that package: {b}", spec(i)));
    }
}

pub fn run_package(cfg: &Value) {
    hook(PROPS);
    *CFG.get() = Some(cfg.clone());
    *REG.get() = Some(HttpRegistry::new(None, None, None));
    simrt::quiet(|| {
        *dirs::BASE.lock().unwrap() = Some(root());
        *reqwest::SERVER.lock().unwrap() = Some(serve);
        *reqwest::WAIT.lock().unwrap() = Some(wait);
        let base = root().join("data/typst/packages");
        for (i, (ns, name, v, _, local)) in SPECS.iter().enumerate() {
            if *local {
                lay(&base.join(ns).join(name).join(v), &files(i, true));
            }
        }
        if cfg["junk"] == true {
            for j in ["x", "1.0", "9.9.9-rc", ".tmp"] {
                std::fs::create_dir_all(base.join("local/own").join(j)).unwrap();
            }
        }
    });
    run_actors(cfg, one);
    if any_crash() {
        hit(P::asker_crashed);
    }
    // nothing fails any more: everything can be had
    simrt::faults_off();
    let p = simrt::spawn_proc(|| {
        for i in 0..NS {
            get(i, 99, "at last");
        }
    });
    simrt::wait_proc(p);
}
fn reg() -> &'static HttpRegistry {
    REG.get().as_ref().unwrap()
}
static HAD: Racy<Vec<usize>> = Racy(std::cell::UnsafeCell::new(vec![]));

fn get(i: usize, me: usize, when: &str) {
    let s = shm();
    let (e0, b0, a0) = (simrt::fired(DISK), s.smem[BAD + i], s.smem[ASKED + i]);
    let kinds = s.smem[KIND + i];
    let r = reg().resolve(&spec(i));
    let (_, _, _, there, local) = SPECS[i];
    let name = spec(i);
    simrt::hist(&format!("{me} {name} {}", r.is_ok()));
    if local && s.smem[ASKED + i] != a0 {
        viol(PROPS, "url", &format!("{when} {name}, which is there, is asked for"));
    }
    match r {
        Ok(dir) => {
            if !there && !local {
                return viol(PROPS, "place", &format!("{when} {name}, which is nowhere, is at {dir:?}"));
            }
            whole(i, &dir, when);
            HAD.get().push(i);
        }
        Err(e) => {
            hit(P::packages_refused);
            if there && simrt::fired(DISK) == e0 && s.smem[BAD + i] == b0 || local && simrt::fired(DISK) == e0 {
                return viol(PROPS, "refused", &format!("{when} {name} cannot be had although nothing went wrong: {e}"));
            }
            if !there && !local && !matches!(e, PackageError::NotFound(_)) && simrt::fired(DISK) == e0 {
                return viol(PROPS, "reason", &format!("{when} {name}, which is nowhere, is refused because {e}"));
            }
            // one request and one reason
            if s.smem[ASKED + i] == a0 + 1 && s.smem[BAD + i] == b0 + 1 && simrt::fired(DISK) == e0 && kinds == 0 {
                let k = s.smem[KIND + i];
                let ok = match &e {
                    PackageError::NotFound(x) => k == kind_bit("404") && *x == name,
                    PackageError::NetworkFailed(_) => k == kind_bit("500") || k == kind_bit("down"),
                    _ => k == kind_bit("cut") || k == kind_bit("corrupt") || k == kind_bit("short"),
                };
                if !ok {
                    viol(PROPS, "reason", &format!("{when} {name} is refused because {e}, the server did {k:b}"));
                }
            }
        }
    }
}
fn one(_: &Value, me: usize, op: &Value) {
    let i = op["s"].as_u64().unwrap() as usize;
    pause(op["wait"].as_u64().unwrap());
    let s = shm();
    match op["k"].as_str().unwrap() {
        "get" => get(i, me, "meanwhile"),
        "again" => {
            // what was had stays
            for i in HAD.get().clone() {
                let (ns, name, v, _, local) = SPECS[i];
                whole(i, &root().join(if local { "data/typst/packages" } else { "cache/typst/packages" }).join(ns).join(name).join(v), "later on");
            }
        }
        "index" => {
            let r = reg();
            let got: Vec<String> = r.packages().iter().map(|p| p.0.to_string()).collect();
            let want: Vec<String> = (0..NS).filter(|i| SPECS[*i].3 && SPECS[*i].0 == "preview").map(|i| spec(i).to_string()).collect();
            if got != want && (!got.is_empty() || s.smem[BAD + INDEX] == 0) {
                viol(PROPS, "index", &format!("the packages are listed as {got:?} rather than {want:?}"));
            }
            let again: Vec<String> = r.packages().iter().map(|p| p.0.to_string()).collect();
            if again != got {
                viol(PROPS, "index", "the list of packages changes");
            }
        }
        _ => {
            let p = spec(i);
            let e0 = simrt::fired(DISK);
            let got = reg().determine_latest_version(&p.versionless()).ok().map(|v| v.to_string());
            let want = match (SPECS[i].0, SPECS[i].1) {
                ("preview", "alpha") => Some("0.10.0"),
                ("preview", "beta") => Some("1.0.0"),
                ("local", "own") => Some("0.12.0"),
                _ => None,
            };
            hit(P::latest_checked);
            let may_fail = if SPECS[i].0 == "preview" { s.smem[BAD + INDEX] > 0 } else { simrt::fired(DISK) > e0 };
            if got.as_deref() != want && !(may_fail && (got.is_none() || SPECS[i].0 == "local")) {
                viol(PROPS, "latest", &format!("the latest version of {} is {got:?} rather than {want:?}", p.versionless()));
            }
        }
    }
}
