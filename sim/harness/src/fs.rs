//! The file-system parts of tinymist-std in simulated processes and threads
//! that share a scratch directory, crash, and meet failing system calls.
use crate::core::*;
use crate::util::set_rate;
use crate::probes::{hit, P};
use serde_json::{json, Value};
use simrt::sched::*;
use simrt::shm::shm;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use tinymist_std::fs::flock::{FileLock, Filesystem};
use tinymist_std::fs::paths;


pub use crate::util::{any_crash, gen_crash, hook, pause, proc_of, root, run_actors, work, MAY_PANIC};

// ---- locks ------------------------------------------------------------------------

const ATTEMPTS: usize = 64; // per file: how many attempts have begun
const DONE: usize = 72; // per file: completed increments
const BUSY: usize = 80; // per file: an increment is being written
const SH: u64 = 1;
const EX: u64 = 2;
const L_ERR: &[u32] = &[F_OPEN, F_META, F_FLOCK_EINTR, F_FLOCK_ERR];
const FILES: [(&str, &str); 3] = [("", "lk"), ("", "a/b/lk"), ("c", "d/lk")];

pub fn gen_flock(r: &mut Rng, e: &Env) -> Value {
    let np = r.range(1, 4);
    let nt = if np == 1 { r.range(2, 3) } else { r.range(1, 2) };
    let nf = r.range(1, 2);
    let f0 = r.below(3);
    let mode = r.below(10); // 8: locking unsupported, 9: NFS
    let mut ops = vec![];
    for _ in 0..r.range(4, if e.thorough { 24 } else { 14 }) {
        let k = *r.weighted(&[(4, "ex"), (3, "try_ex"), (2, "sh_create"), (2, "sh"), (3, "try_sh"), (1, "mkdir")]);
        ops.push(json!({"p": r.below(np), "t": r.below(nt), "k": k, "f": (f0 + r.below(nf)) % 3, "hold": r.below(30),
            "pause": if r.chance(20) { r.below(100) } else { 0 }, "clone": r.chance(20), "long": if r.chance(6) { *r.pick(&[20, 300, 2000, 70_000]) } else { 0 }, "wait": r.below(6)}));
    }
    let mut rates = serde_json::Map::new();
    if mode < 8 {
        set_rate(&mut rates, r, 30, "flock_eintr", &[50, 300]);
        set_rate(&mut rates, r, 20, "flock_error", &[30, 200]);
        set_rate(&mut rates, r, 20, "statfs_error", &[100, 500]);
    }
    set_rate(&mut rates, r, 15, "open_error", &[20, 100]);
    set_rate(&mut rates, r, 10, "metadata_syscall_error", &[50]);
    set_rate(&mut rates, r, 20, "read_eintr", &[100]);
    set_rate(&mut rates, r, 20, "short_read", &[200]);
    set_rate(&mut rates, r, 20, "spurious_futex_wake", &[100]);
    json!({"procs": np, "threads": nt, "ops": ops, "mode": mode, "rates": rates,
        "crash": if r.chance(40) { gen_crash(r, np, 40, 1500) } else { json!([]) }})
}
pub fn run_flock(cfg: &Value) {
    hook(&["S01"]);
    let s = shm();
    match cfg["mode"].as_u64().unwrap() {
        8 => s.umem[0] = 1 + s.realbase / 1_000_000_000 % 3,
        9 => s.umem[1] = 1,
        _ => {}
    }
    run_actors(cfg, flock_op);
    if s.umem[0] + s.umem[1] == 0 {
        for (f, (d, n)) in FILES.iter().enumerate() {
            let path = root().join(d).join(n);
            check_counter(f, simrt::quiet(|| std::fs::read_to_string(&path).unwrap_or_default()), "at the end");
        }
    }
}
fn alive(actor: usize) -> bool {
    simrt::proc_alive(proc_of(actor))
}
fn others(me: usize, f: usize, mode: u64, held_only: bool) -> Option<usize> {
    (0..32).find(|a| {
        let v = shm().smem[*a];
        *a != me
            && v != 0
            && alive(*a)
            && (v >> 8 & 0xff) as usize == f
            && (mode == EX || v >> 16 == EX)
            && (!held_only || v & 0xff == 2)
    })
}
fn check_counter(f: usize, text: String, what: &str) {
    let s = shm();
    let v: u64 = if text.is_empty() { 0 } else { text.trim().parse().unwrap_or(u64::MAX) };
    let (done, busy) = (s.smem[DONE + f], s.smem[BUSY + f]);
    // an increment that a crash cut short has happened or not
    if v == done || (busy != 0 && v == done + 1) {
        s.smem[DONE + f] = v;
        s.smem[BUSY + f] = 0;
        return;
    }
    viol(
        &["S01"],
        "lost-update",
        &format!("{what}: the locked file {} holds {text:?} after {done} increments, each made under its exclusive lock", FILES[f].1),
    );
}
fn flock_op(_: &Value, me: usize, op: &Value) {
    let locking = shm().umem[0] + shm().umem[1] == 0;
    let f = op["f"].as_u64().unwrap() as usize;
    let k = op["k"].as_str().unwrap();
    let n = |k: &str| op[k].as_u64().unwrap_or(0);
    let (dir, name) = FILES[f];
    let fs = Filesystem::new(root());
    let fs = if dir.is_empty() { fs } else { fs.join(dir) };
    let path = root().join(dir).join(name);
    pause(n("wait"));
    if k == "mkdir" {
        let e0 = simrt::fired(L_ERR);
        let r = fs.join(Path::new(name).parent().unwrap()).create_dir();
        if r.is_err() && simrt::fired(L_ERR) == e0 {
            viol(&["S01"], "error", &format!("create_dir failed although nothing went wrong: {:#}", r.unwrap_err()));
        }
        return;
    }
    let mode = if k == "ex" || k == "try_ex" { EX } else { SH };
    let existed = simrt::quiet(|| path.exists());
    let slot = |st: u64| shm().smem[me] = if st == 0 { 0 } else { st | (f as u64) << 8 | mode << 16 };
    let active0 = others(me, f, mode, false);
    shm().smem[ATTEMPTS + f] += 1;
    let a0 = shm().smem[ATTEMPTS + f];
    slot(1);
    let e0 = simrt::fired(L_ERR);
    let w0 = simrt::flock_waits();
    let r = match k {
        "ex" => fs.open_rw_exclusive_create(name, "m").map(Some),
        "sh" => fs.open_ro_shared(name, "m").map(Some),
        "sh_create" => fs.open_ro_shared_create(name, "m").map(Some),
        "try_ex" => fs.try_open_rw_exclusive_create(name),
        _ => fs.try_open_ro_shared_create(name),
    };
    if k.starts_with("try") && simrt::flock_waits() != w0 {
        viol(&["S01"], "try-blocked", &format!("{k} on {name} waited for the lock"));
    }
    let mut lock: FileLock = match r {
        Ok(Some(l)) => l,
        Ok(None) => {
            slot(0);
            hit(P::lock_contended);
            if !locking {
                viol(&["S01"], "fallback", &format!("{k} on {name} reports contention on a file system without locking"));
            }
            if active0.is_none() && shm().smem[ATTEMPTS + f] == a0 {
                viol(&["S01"], "refused", &format!("{k} on {name} reports contention, but nobody held or asked for a conflicting lock meanwhile"));
            }
            return;
        }
        Err(e) => {
            slot(0);
            let missing = k == "sh" && !existed;
            if !missing && simrt::fired(L_ERR) == e0 {
                viol(&["S01"], "error", &format!("{k} on {name} failed although nothing went wrong: {e:#}"));
            }
            if missing && a0 == 1 && shm().smem[ATTEMPTS + f] == a0 && simrt::quiet(|| path.exists()) {
                viol(&["S01"], "created", "open_ro_shared created the file it was to open");
            }
            return;
        }
    };
    if simrt::flock_waits() != w0 {
        hit(P::lock_contended);
    }
    hit(P::locks_taken);
    slot(2);
    if lock.path() != path || lock.parent() != path.parent().unwrap() {
        viol(&["S01"], "path", &format!("the lock of {path:?} says {:?}", lock.path()));
    }
    if !locking {
        hit(P::reentrant_lock_fallback);
    }
    let excluded = |when: &str| {
        if !locking {
            return;
        }
        if let Some(o) = others(me, f, mode, true) {
            let m = |v: u64| if v == EX { "exclusive" } else { "shared" };
            viol(
                &["S01"],
                "exclusion",
                &format!("{when}: actor {me} holds the {} lock of {name} while actor {o} holds its {} lock", m(mode), m(shm().smem[o] >> 16)),
            );
        }
        if shm().procs.iter().any(|p| p.crashed != 0) {
            hit(P::lock_crash_release);
        }
    };
    excluded("after acquiring");
    if mode == SH && (0..32).any(|a| a != me && alive(a) && shm().smem[a] & 0xffff == 2 | (f as u64) << 8) {
        hit(P::shared_holders);
    }
    if locking {
        let mut t = String::new();
        if let Err(e) = lock.read_to_string(&mut t) {
            viol(&["S01"], "read", &format!("reading through the lock failed: {e}"));
        }
        check_counter(f, t.clone(), "under the lock");
        work(n("hold"));
        pause(n("pause"));
        simrt::sleep(n("long") * 1_000_000);
        if mode == EX && k != "sh" {
            shm().smem[BUSY + f] = 1;
            let v = shm().smem[DONE + f];
            let r = lock.seek(SeekFrom::Start(0)).and_then(|_| lock.write_all(format!("{:08}", v + 1).as_bytes())).and_then(|_| lock.flush());
            if let Err(e) = r {
                viol(&["S01"], "write", &format!("writing through the exclusive lock failed: {e}"));
            }
            shm().smem[BUSY + f] = 0;
            shm().smem[DONE + f] = v + 1;
        } else {
            let mut u = String::new();
            let _ = lock.seek(SeekFrom::Start(0));
            let _ = lock.read_to_string(&mut u);
            if u != t {
                viol(&["S01"], "shared-read", &format!("the file changed from {t:?} to {u:?} under a shared lock"));
            }
        }
    } else {
        work(n("hold"));
    }
    excluded("before releasing");
    // a duplicate of the descriptor must not keep the lock alive
    let dup = if op["clone"] == true { lock.file().try_clone().ok() } else { None };
    slot(3);
    let e0 = simrt::fired(&[F_FLOCK_ERR]);
    drop(lock);
    // (if releasing it fails, the lock ends with its descriptors)
    let dup = if simrt::fired(&[F_FLOCK_ERR]) == e0 { dup } else { None };
    slot(0);
    work(5);
    if dup.is_some() {
        pause(20);
    }
    drop(dup);
}

// ---- whole-file replacement ---------------------------------------------------------

const W_ERR: &[u32] = &[F_OPEN, F_META, F_RENAME, F_EIO_W, F_ENOSPC, F_EIO_R, F_UNLINK];
/// Contents that tell which write they come from and whether they are whole.
fn content(id: u64, size: u64) -> Vec<u8> {
    let mut v = format!("{id}:{size}:").into_bytes();
    let mut x = id;
    while (v.len() as u64) < size {
        v.push(b'a' + (splitmix(&mut x) % 26) as u8);
    }
    v.extend(b".end");
    v
}
fn whole(b: &[u8]) -> Option<u64> {
    let t = std::str::from_utf8(&b[..b.len().min(40)]).ok()?;
    let mut it = t.split(':');
    let id: u64 = it.next()?.parse().ok()?;
    let size: u64 = it.next()?.parse().ok()?;
    (content(id, size) == b).then_some(id)
}
fn gen_size(r: &mut Rng) -> u64 {
    *r.weighted(&[(2, 10), (3, 100), (2, 5_000), (1, 70_000)]) + r.below(9) as u64
}
fn io_rates(r: &mut Rng) -> serde_json::Map<String, Value> {
    let mut m = serde_json::Map::new();
    if r.chance(25) {
        return m;
    }
    set_rate(&mut m, r, 40, "write_eintr", &[50, 300]);
    set_rate(&mut m, r, 50, "short_write", &[100, 500]);
    set_rate(&mut m, r, 25, "disk_full", &[50, 200]);
    set_rate(&mut m, r, 20, "write_error", &[50, 200]);
    set_rate(&mut m, r, 20, "open_error", &[30, 150]);
    set_rate(&mut m, r, 25, "rename_error", &[100, 400]);
    set_rate(&mut m, r, 25, "metadata_syscall_error", &[50, 300]);
    set_rate(&mut m, r, 20, "name_collision", &[100, 500]);
    set_rate(&mut m, r, 15, "read_eintr", &[100]);
    set_rate(&mut m, r, 15, "short_read", &[300]);
    m
}
const MODES: [u32; 11] = [0o644, 0o600, 0o664, 0o755, 0o640, 0o444, 0o777, 0o604, 0o266, 0o000, 0o501];

pub fn gen_atomic(r: &mut Rng, e: &Env) -> Value {
    let np = r.range(1, 4);
    let nt = r.range(if np == 1 { 2 } else { 1 }, 2);
    let mut ops = vec![];
    let mut id = 0;
    let readers_pct = *r.pick(&[20, 40, 60]);
    for _ in 0..r.range(3, if e.thorough { 24 } else { 14 }) {
        let (p, t, wait) = (r.below(np), r.below(nt), r.below(4));
        if r.chance(readers_pct) {
            ops.push(json!({"p": p, "t": t, "k": "r", "n": r.range(1, 4), "wait": wait}));
        } else {
            id += 1;
            ops.push(json!({"p": p, "t": t, "k": "w", "id": id, "size": gen_size(r), "wait": wait}));
        }
    }
    // one of the writes may be of nothing
    let empty = if id > 0 && r.chance(20) { json!(r.range(1, id)) } else { Value::Null };
    let mut rates = io_rates(r);
    set_rate(&mut rates, r, 20, "unlink_error", &[200]);
    json!({"empty": empty, "procs": np, "threads": nt, "ops": ops, "rates": rates, "exists": r.chance(75), "mode": *r.pick(&MODES),
        "size": gen_size(r), "crash": if r.chance(45) { gen_crash(r, np, 45, 2500) } else { json!([]) },
        "name": *r.pick(&["f", "tinymist.lock", "x y.typ", "\u{00e9}\u{4e2d}.json", ".hidden"]), "rel": r.chance(15), "link": r.chance(12)})
}
fn atomic_path(cfg: &Value) -> PathBuf {
    let p = PathBuf::from("d").join(cfg["name"].as_str().unwrap());
    if cfg["rel"] == true {
        p
    } else {
        root().join(p)
    }
}
pub fn run_atomic(cfg: &Value) {
    hook(&["S02"]);
    let path = atomic_path(cfg);
    simrt::quiet(|| {
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        if cfg["exists"] == true {
            if cfg["link"] == true {
                std::os::unix::fs::symlink("../elsewhere", &path).unwrap();
            }
            std::fs::write(&path, content(0, cfg["size"].as_u64().unwrap())).unwrap();
            std::fs::set_permissions(&path, std::fs::Permissions::from_mode(cfg["mode"].as_u64().unwrap() as u32)).unwrap();
        }
    });
    run_actors(cfg, atomic_op);
    // the state that is left
    atomic_read(cfg, 99);
    let left: Vec<String> = simrt::quiet(|| {
        std::fs::read_dir(path.parent().unwrap()).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect()
    });
    if !any_crash() && simrt::fired(&[F_UNLINK]) == 0 {
        if let Some(x) = left.iter().find(|x| *x != cfg["name"].as_str().unwrap()) {
            viol(&["S02"], "leftover", &format!("a temporary file is left behind: {x}"));
        }
    }
    if any_crash() {
        hit(P::writer_crashed);
    }
    check_register(&["S02"], cfg["exists"] == true);
}
fn atomic_read(cfg: &Value, me: usize) {
    let path = atomic_path(cfg);
    simrt::hist(&format!("rs {me}"));
    let f = simrt::quiet(|| std::fs::File::open(&path));
    let mut b = vec![];
    let mut mode = None;
    if let Ok(mut f) = f {
        mode = Some(simrt::quiet(|| f.metadata().unwrap().permissions().mode() & 0o777));
        let mut buf = [0u8; 3000];
        loop {
            let n = simrt::quiet(|| f.read(&mut buf).unwrap());
            b.extend(&buf[..n]);
            if n == 0 {
                break;
            }
            work(2);
        }
    } else if cfg["exists"] == true {
        viol(&["S02"], "gone", "the file that is being replaced does not exist for a while");
    }
    let id = match (mode, whole(&b)) {
        (None, _) => -1,
        _ if b.is_empty() && cfg["empty"].is_u64() => cfg["empty"].as_i64().unwrap(),
        (_, Some(id)) => id as i64,
        _ => {
            viol(&["S02"], "torn", &format!("a reader sees {} bytes that no write wrote: {:?}...", b.len(), String::from_utf8_lossy(&b[..b.len().min(30)])));
            -2
        }
    };
    hit(if id == 0 { P::atomic_old_seen } else { P::atomic_new_seen });
    if let (true, Some(m)) = (cfg["exists"] == true, mode) {
        let want = cfg["mode"].as_u64().unwrap() as u32;
        if m != want {
            viol(&["S02"], "mode", &format!("the replaced file has mode {m:o} instead of {want:o}"));
        }
    }
    simrt::hist(&format!("re {me} {id}"));
}
fn atomic_op(cfg: &Value, me: usize, op: &Value) {
    pause(op["wait"].as_u64().unwrap_or(0));
    if op["k"] == "r" {
        for _ in 0..op["n"].as_u64().unwrap() {
            atomic_read(cfg, me);
            work(3);
        }
        return;
    }
    let id = op["id"].as_u64().unwrap();
    let c = if cfg["empty"] == id { vec![] } else { content(id, op["size"].as_u64().unwrap()) };
    let e0 = simrt::fired(W_ERR);
    simrt::hist(&format!("ws {me} {id}"));
    let r = paths::write_atomic(atomic_path(cfg), &c);
    match r {
        Ok(()) => simrt::hist(&format!("we {me} {id} ok")),
        Err(e) => {
            simrt::hist(&format!("we {me} {id} err"));
            hit(P::write_reported_error);
            if simrt::fired(W_ERR) == e0 {
                viol(&["S02"], "error", &format!("write_atomic failed although nothing went wrong: {e:#}"));
            }
        }
    }
}
/// The recorded reads against an atomic register: a read returns a write that
/// was not yet overwritten when the read began, and never a failed write.
fn check_register(props: &[&str], exists: bool) {
    #[derive(Default, Clone)]
    struct W {
        start: usize,
        end: usize,
        failed: bool,
    }
    let mut ws: std::collections::BTreeMap<i64, W> = Default::default();
    ws.insert(if exists { 0 } else { -1 }, W { start: 0, end: 0, failed: false });
    let lines: Vec<Vec<&str>> = simrt::hist_text().lines().map(|l| l.split(' ').collect()).collect();
    for (i, l) in lines.iter().enumerate() {
        let i = i + 1;
        match l[0] {
            "ws" => {
                ws.insert(l[2].parse().unwrap(), W { start: i, end: usize::MAX, failed: false });
            }
            "we" => {
                let w = ws.get_mut(&l[2].parse().unwrap()).unwrap();
                w.end = i;
                w.failed = l[3] == "err";
            }
            _ => {}
        }
    }
    let mut open: std::collections::HashMap<&str, usize> = Default::default();
    let mut reads: Vec<(usize, usize, i64)> = vec![];
    for (i, l) in lines.iter().enumerate() {
        let i = i + 1;
        if l[0] == "rs" {
            open.insert(l[1], i);
        } else if l[0] == "re" {
            reads.push((open[l[1]], i, l[2].parse().unwrap()));
        }
    }
    for (s, e, v) in &reads {
        let Some(w) = ws.get(v) else {
            viol(props, "phantom", &format!("a reader sees version {v}, which nobody has written"));
            return;
        };
        if w.start > *e {
            viol(props, "phantom", &format!("a reader sees version {v} before it is written"));
        }
        if w.failed {
            viol(props, "failed-visible", &format!("version {v} is visible although its write reported an error"));
        }
        // a crashed write takes effect, if at all, before the crash
        if let Some((n, _)) = ws.iter().find(|(_, x)| !x.failed && x.start > w.end && x.end < *s) {
            viol(props, "stale", &format!("a reader sees version {v} after version {n} has replaced it"));
        }
    }
    // Two reads, one after the other, do not go back in time.
    for (_, e1, v1) in &reads {
        for (s2, _, v2) in &reads {
            if e1 < s2 && v1 != v2 && ws[v2].end < ws[v1].start {
                viol(props, "back", &format!("version {v2} is seen again after its successor {v1}"));
            }
        }
    }
}

// ---- rewriting in place, appending, copying -----------------------------------------------

pub fn gen_rewrite(r: &mut Rng, e: &Env) -> Value {
    let np = r.range(1, 3);
    let nt = r.range(1, 2);
    let mut ops = vec![];
    let mut id = 0;
    for _ in 0..r.range(3, if e.thorough { 24 } else { 14 }) {
        id += 1;
        let k = *r.weighted(&[(4, "if_changed"), (3, "append"), (2, "write"), (2, "read"), (1, "copy"), (2, "link"), (1, "read_str")]);
        ops.push(json!({"p": r.below(np), "t": r.below(nt), "k": k, "id": id, "size": gen_size(r), "same": r.chance(40),
            "rel": *r.pick(&["none", "none", "same", "same", "prefix", "suffix", "extend", "insert", "flip"]), "at": r.below(9000),
            "dst": *r.pick(&["none", "file", "dangling", "hard", "self", "dirlink", "gone"]), "mode": *r.pick(&MODES), "dmode": *r.pick(&MODES), "bin": r.chance(30)}));
    }
    let mut rates = io_rates(r);
    set_rate(&mut rates, r, 20, "read_error", &[100]);
    set_rate(&mut rates, r, 10, "unlink_error", &[100]);
    json!({"procs": np, "threads": nt, "ops": ops, "rates": rates,
        "crash": if r.chance(20) { gen_crash(r, np, 40, 2500) } else { json!([]) }})
}
/// New contents that have something in common with the old ones.
fn relate(op: &Value, old: Option<&[u8]>, c: Vec<u8>) -> Vec<u8> {
    let Some(old) = old else { return c };
    let at = op["at"].as_u64().unwrap_or(0) as usize % (old.len() + 1);
    match op["rel"].as_str().unwrap_or("none") {
        "same" => old.to_vec(),
        "prefix" => old[..at].to_vec(),
        "suffix" => old[at..].to_vec(),
        "extend" => [old, &c].concat(),
        "insert" => [&old[..at], b"+", &old[at..]].concat(),
        "flip" => {
            let mut v = old.to_vec();
            if let Some(b) = v.get_mut(at) {
                *b ^= 1;
            }
            v
        }
        _ => c,
    }
}
pub fn run_rewrite(cfg: &Value) {
    hook(&["S03"]);
    run_actors(cfg, rewrite_op);
    // What several processes appended to one log.
    let log = simrt::quiet(|| std::fs::read(root().join("log")).unwrap_or_default());
    let short = simrt::fired(&[F_SHORT_W]) > 0;
    let mut want: Vec<(u64, bool)> = vec![];
    for l in simrt::hist_text().lines() {
        let v: Vec<&str> = l.split(' ').collect();
        if v[0] == "as" {
            want.push((v[1].parse().unwrap(), false));
        } else if v[0] == "ae" {
            want.iter_mut().find(|w| w.0.to_string() == v[1]).unwrap().1 = true;
        }
    }
    if !short && !any_crash() && simrt::fired(&[F_EIO_W, F_ENOSPC]) == 0 {
        // whole records, in some order
        let mut rest = &log[..];
        let mut got = vec![];
        while !rest.is_empty() {
            let Some(n) = rest.windows(5).position(|w| w == b".end\n").map(|p| p + 5) else { break };
            match whole(&rest[..n - 1]) {
                Some(id) => got.push(id),
                None => break,
            }
            rest = &rest[n..];
        }
        if !rest.is_empty() {
            viol(&["S03"], "append-torn", &format!("appended records are mixed up or cut: {:?}", String::from_utf8_lossy(&rest[..rest.len().min(60)])));
        }
        for (id, ok) in &want {
            let n = got.iter().filter(|g| *g == id).count();
            if n > 1 || (*ok && n == 0) {
                viol(&["S03"], "append-lost", &format!("record {id} is {n} times in the file, its append returned {ok}"));
            }
        }
    }
}
fn rewrite_op(_: &Value, me: usize, op: &Value) {
    let id = op["id"].as_u64().unwrap();
    let c = content(id, op["size"].as_u64().unwrap());
    let dir = root().join(format!("a{me}"));
    let file = dir.join("f");
    let quiet_read = |p: &Path| simrt::quiet(|| std::fs::read(p).ok());
    simrt::quiet(|| std::fs::create_dir_all(&dir).unwrap());
    let e0 = simrt::fired(W_ERR);
    let bad = |what: &str, e: anyhow::Error| {
        hit(P::write_reported_error);
        if simrt::fired(W_ERR) == e0 {
            viol(&["S03"], "error", &format!("{what} failed although nothing went wrong: {e:#}"));
        }
    };
    let must = |what: &str, p: &Path, want: &[u8]| {
        let got = quiet_read(p);
        if got.as_deref() != Some(want) {
            let d = got.map_or("nothing".into(), |g| format!("{} bytes {:?}...", g.len(), String::from_utf8_lossy(&g[..g.len().min(30)])));
            viol(&["S03"], "content", &format!("{what} succeeded, but the file has {d} instead of {} bytes", want.len()));
        }
    };
    // copies and links are as readable, writable and executable as the original
    let mode = |m: &str| std::fs::Permissions::from_mode(op[m].as_u64().unwrap_or(0o644) as u32);
    let same_mode = |what: &str, a: &Path, b: &Path| {
        let (x, y) = simrt::quiet(|| (std::fs::metadata(a).unwrap().permissions().mode() & 0o777, std::fs::metadata(b).unwrap().permissions().mode() & 0o777));
        if x != y {
            viol(&["S03"], "mode", &format!("{what} made a file with mode {y:o} from one with mode {x:o}"));
        }
    };
    match op["k"].as_str().unwrap() {
        "if_changed" => {
            let old = quiet_read(&file);
            let c = relate(op, old.as_deref(), c);
            let t0 = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_007);
            let before = simrt::quiet(|| {
                let f = std::fs::OpenOptions::new().write(true).open(&file).ok()?;
                f.set_times(std::fs::FileTimes::new().set_modified(t0)).unwrap();
                let m = f.metadata().unwrap();
                Some((m.ino(), m.mtime()))
            });
            match paths::write_if_changed(&file, &c) {
                Ok(()) => {
                    must("write_if_changed", &file, &c);
                    if let (Some((ino, mt)), true) = (before, old.as_deref() == Some(&c[..])) {
                        hit(P::unchanged_write_skipped);
                        let m = simrt::quiet(|| std::fs::metadata(&file).unwrap());
                        if m.ino() != ino || m.mtime() != mt {
                            viol(&["S03"], "touched", "write_if_changed wrote although the contents are the same");
                        }
                    }
                }
                Err(e) => {
                    bad("write_if_changed", e);
                    if old.as_deref() == Some(&c[..]) && quiet_read(&file).as_deref() != Some(&c[..]) {
                        viol(&["S03"], "spoilt", "a failed write_if_changed of the same contents changed the file");
                    }
                }
            }
        }
        "write" => {
            let c = relate(op, quiet_read(&file).as_deref(), c);
            match paths::write(&file, &c) {
                Ok(()) => must("write", &file, &c),
                Err(e) => bad("write", e),
            }
        }
        "append" if op["same"] == true => {
            // alone on the file: everything before is kept
            let mut want = quiet_read(&file).unwrap_or_default();
            let old = want.clone();
            want.extend(&c);
            match paths::append(&file, &c) {
                Ok(()) => {
                    hit(P::append_ok);
                    must("append", &file, &want)
                }
                Err(e) => {
                    bad("append", e);
                    if !quiet_read(&file).unwrap_or_default().starts_with(&old) {
                        viol(&["S03"], "append-lost", "a failed append changed what was in the file before");
                    }
                }
            }
        }
        "append" => {
            let mut c = c;
            c.push(b'\n');
            simrt::hist(&format!("as {id}"));
            match paths::append(&root().join("log"), &c) {
                Ok(()) => {
                    hit(P::append_ok);
                    simrt::hist(&format!("ae {id}"))
                }
                Err(e) => bad("append", e),
            }
        }
        k @ ("read" | "read_str") => {
            let mut c = c;
            let bin = op["bin"] == true;
            if bin {
                c.extend([0xff, 0xfe, 0x80]);
            }
            let f = dir.join("r");
            simrt::quiet(|| std::fs::write(&f, &c).unwrap());
            let r = if k == "read" { paths::read_bytes(&f) } else { paths::read(&f).map(|s| s.into_bytes()) };
            match r {
                Ok(b) if b != c => viol(&["S03"], "read", &format!("{k} returned {} of {} bytes without an error", b.len(), c.len())),
                Ok(_) => {}
                Err(_) if k == "read_str" && bin => {}
                Err(e) => bad(k, e),
            }
            if paths::read_bytes(&dir.join("missing")).is_ok() {
                viol(&["S03"], "read", "reading a file that does not exist succeeded");
            }
        }
        "copy" => {
            let (a, b) = (dir.join("src"), dir.join("dst"));
            simrt::quiet(|| {
                let _ = std::fs::remove_file(&b);
                let _ = std::fs::remove_file(&a);
                std::fs::write(&a, &c).unwrap();
                std::fs::set_permissions(&a, mode("mode")).unwrap();
                if op["dst"] == "file" {
                    std::fs::write(&b, b"something that was there before").unwrap();
                }
            });
            match paths::copy(&a, &b) {
                Ok(_) => {
                    must("copy", &b, &c);
                    same_mode("copy", &a, &b)
                }
                Err(e) => bad("copy", e),
            }
            must("copy (source)", &a, &c);
        }
        "link" => {
            let (a, b) = (dir.join("src"), dir.join("dst"));
            let outside = dir.join("outside");
            let dirsrc = op["dst"] == "dirlink";
            let kind = op["dst"].as_str().unwrap();
            simrt::quiet(|| {
                let _ = std::fs::remove_file(&b);
                let _ = std::fs::remove_file(&a);
                std::fs::write(&a, &c).unwrap();
                std::fs::set_permissions(&a, mode("mode")).unwrap();
                std::fs::write(&outside, b"outside").unwrap();
                match kind {
                    "file" => {
                        std::fs::write(&b, b"old").unwrap();
                        std::fs::set_permissions(&b, mode("dmode")).unwrap();
                    }
                    "dangling" => std::os::unix::fs::symlink("nowhere", &b).unwrap(),
                    "hard" => std::fs::hard_link(&a, &b).unwrap(),
                    "self" => std::os::unix::fs::symlink(&outside, &b).unwrap(),
                    "gone" => std::fs::remove_file(&a).unwrap(),
                    "dirlink" => {
                        std::fs::create_dir_all(dir.join("sd")).unwrap();
                        std::fs::write(dir.join("sd/x"), &c).unwrap();
                    }
                    _ => {}
                }
            });
            let src = if dirsrc { dir.join("sd") } else { a.clone() };
            let r = paths::link_or_copy(&src, &b);
            match r {
                Ok(()) if kind == "gone" => viol(&["S03"], "content", "link_or_copy of a file that does not exist succeeded"),
                Err(_) if kind == "gone" => {}
                Ok(()) if dirsrc => must("link_or_copy of a directory", &b.join("x"), &c),
                Ok(()) => {
                    must("link_or_copy", &b, &c);
                    same_mode("link_or_copy", &a, &b)
                }
                Err(e) => bad("link_or_copy", e),
            }
            if kind != "gone" {
                must("link_or_copy (source)", &a, &c);
            }
            must("link_or_copy (target of a replaced link)", &outside, b"outside");
            if simrt::quiet(|| dir.join("nowhere").exists()) {
                viol(&["S03"], "content", "link_or_copy wrote through a dangling link instead of replacing it");
            }
        }
        _ => unreachable!(),
    }
}

// ---- directories ------------------------------------------------------------------------------

const D_ERR: &[u32] = &[F_OPEN, F_META, F_RENAME, F_UNLINK, F_EIO_W, F_ENOSPC];
const TAG: &[u8] = b"Signature: 8a477f597d28d172789f06886806bc55";

pub fn gen_dirs(r: &mut Rng, e: &Env) -> Value {
    let np = r.range(1, 4);
    let nt = r.range(1, 2);
    let mut ops = vec![];
    for _ in 0..r.range(3, if e.thorough { 20 } else { 12 }) {
        let k = *r.weighted(&[(4, "temp"), (4, "cache"), (2, "look"), (2, "tree"), (2, "siblings"), (1, "mkdirs")]);
        ops.push(json!({"p": r.below(np), "t": r.below(nt), "k": k, "n": r.below(3), "end": *r.pick(&["ok", "err", "panic", "nested", "moved", "removed", "locked"]),
            "id": ops.len(), "files": r.below(4), "wait": r.below(4), "ro": r.chance(40)}));
    }
    let mut rates = serde_json::Map::new();
    if r.chance(60) {
        set_rate(&mut rates, r, 30, "disk_full", &[100]);
        set_rate(&mut rates, r, 30, "open_error", &[50, 200]);
        set_rate(&mut rates, r, 30, "rename_error", &[200]);
        set_rate(&mut rates, r, 30, "metadata_syscall_error", &[50, 200]);
        set_rate(&mut rates, r, 40, "unlink_error", &[50, 300]);
        set_rate(&mut rates, r, 30, "short_write", &[300]);
        set_rate(&mut rates, r, 30, "write_eintr", &[300]);
    }
    json!({"procs": np, "threads": nt, "ops": ops, "rates": rates, "pre": r.below(3), "pretag": r.chance(30), "strict": r.chance(40),
        "crash": if r.chance(35) { gen_crash(r, np, 45, 2500) } else { json!([]) }})
}
/// Whether the tag of a cache directory may be missing: errors while writing
/// it are ignored by design.
fn tag_faults() -> bool {
    simrt::fired(&[F_OPEN, F_EIO_W, F_ENOSPC]) > 0
}
fn cache_dir(n: u64) -> PathBuf {
    root().join(["cache", "x/y/cache", "x/other"][n as usize % 3])
}
pub fn run_dirs(cfg: &Value) {
    hook(&["S04"]);
    let pre = cfg["pre"].as_u64().unwrap();
    shm().umem[2] = (cfg["strict"] == true) as u64;
    simrt::quiet(|| {
        std::fs::create_dir_all(root().join("outside/sub")).unwrap();
        std::fs::write(root().join("outside/keep"), b"keep").unwrap();
        std::fs::write(root().join("outside/sub/keep"), b"keep").unwrap();
        if pre > 0 {
            // one cache directory is there already, without a tag
            std::fs::create_dir_all(cache_dir(0)).unwrap();
            std::fs::write(cache_dir(0).join("old"), b"old").unwrap();
        }
    });
    run_actors(cfg, dirs_op);
    check_outside();
    for n in 0..3 {
        check_cache(n, pre > 0);
    }
    if pre > 0 && !simrt::quiet(|| cache_dir(0).join("old").exists()) {
        viol(&["S04"], "cache-lost", "a cache directory that existed lost its contents");
    }
    // everything an actor put into a cache directory is still there
    for l in simrt::hist_text().lines() {
        if let Some(p) = l.strip_prefix("put ") {
            if !simrt::quiet(|| root().join(p).exists()) {
                viol(&["S04"], "cache-lost", &format!("{p} has vanished"));
            }
        }
    }
    if !any_crash() && simrt::fired(&[F_UNLINK, F_OPEN]) == 0 {
        let t: Vec<_> = simrt::quiet(|| {
            let mut v = vec![];
            for d in ["", "x", "x/y", "tmp"] {
                for e in std::fs::read_dir(root().join(d)).into_iter().flatten() {
                    let n = e.unwrap().file_name().to_string_lossy().into_owned();
                    if (n.starts_with("cache") && n != "cache") || (n.starts_with("other") && n != "other") || n.starts_with(".tmp") {
                        v.push(n);
                    }
                }
            }
            v
        });
        if !t.is_empty() {
            viol(&["S04"], "leftover", &format!("temporary directories are left behind: {t:?}"));
        }
        hit(P::cleanup_ok);
    }
}
fn check_outside() {
    let ok = simrt::quiet(|| {
        let k = |p: &str| std::fs::read(root().join(p)).ok().as_deref() == Some(b"keep");
        k("outside/keep") && k("outside/sub/keep")
    });
    if !ok {
        viol(&["S04"], "outside", "removing a tree removed what a link in it points to");
    }
}
fn check_cache(n: u64, pre: bool) {
    let d = cache_dir(n);
    let (isdir, tag) = simrt::quiet(|| (d.is_dir(), std::fs::read(d.join("CACHEDIR.TAG")).ok()));
    if !isdir {
        return;
    }
    if n == 0 && pre {
        if tag.is_some() {
            viol(&["S04"], "cache-tagged", "a directory that existed before was marked as a cache");
        }
        return;
    }
    if !tag_faults() && !tag.as_deref().is_some_and(|t| t.starts_with(TAG)) {
        viol(&["S04"], "cache-untagged", &format!("the cache directory {d:?} is visible without its tag (tag: {:?})", tag.map(|t| t.len())));
    }
    hit(P::cachedir_ok);
}
fn dirs_op(cfg: &Value, me: usize, op: &Value) {
    let n = op["n"].as_u64().unwrap();
    let pre = cfg["pre"].as_u64().unwrap() > 0;
    pause(op["wait"].as_u64().unwrap_or(0));
    let e0 = simrt::fired(D_ERR);
    let bad = |what: &str, e: anyhow::Error| {
        if simrt::fired(D_ERR) == e0 {
            viol(&["S04"], "error", &format!("{what} failed although nothing went wrong: {e:#}"));
        }
    };
    match op["k"].as_str().unwrap() {
        "temp" => temp_op(me, op, bad),
        "cache" => {
            match paths::create_dir_all_excluded_from_backups_atomic(cache_dir(n)) {
                Ok(()) => {
                    if !simrt::quiet(|| cache_dir(n).is_dir()) {
                        viol(&["S04"], "cache-missing", "the cache directory does not exist after it was created");
                        return;
                    }
                    check_cache(n, pre);
                    if !tag_faults() {
                        let f = cache_dir(n).join(format!("f{me}"));
                        simrt::quiet(|| std::fs::write(&f, b"x").unwrap());
                        simrt::hist(&format!("put {}", f.strip_prefix(root()).unwrap().display()));
                    }
                }
                Err(e) => bad("create_dir_all_excluded_from_backups_atomic", e),
            }
        }
        "look" => {
            for _ in 0..6 {
                for n in 0..3 {
                    check_cache(n, pre);
                }
                work(4);
                pause(1);
            }
        }
        "mkdirs" => {
            let d = root().join("m/n").join(["o", "p/q"][n as usize % 2]);
            match paths::create_dir_all(&d) {
                Ok(()) if !simrt::quiet(|| d.is_dir()) => viol(&["S04"], "mkdirs", "create_dir_all succeeded without creating it"),
                Ok(()) => {}
                Err(e) => bad("create_dir_all", e),
            }
        }
        k => {
            // a tree with everything that may go wrong in it
            let base = root().join(format!("t{me}"));
            let tree = base.join("tree");
            let lk = ["lk", ".lk", "lk.lock", "a.lk"][op["id"].as_u64().unwrap() as usize % 4];
            simrt::quiet(|| {
                let _ = std::fs::remove_dir_all(&base);
                std::fs::create_dir_all(tree.join("a/b/c")).unwrap();
                for f in [lk, "f", "a/f", "a/b/c/f", "z", "lk2", ".lk3", "a/.h", "a/b/\u{4e2d} x", "~z", "-"] {
                    std::fs::write(tree.join(f), b"x").unwrap();
                }
                // names that are not text, and an empty and a hidden directory
                use std::os::unix::ffi::OsStrExt;
                let odd = std::ffi::OsStr::from_bytes(b"n\xff\xfe");
                std::fs::write(tree.join("a").join(odd), b"x").unwrap();
                std::fs::write(tree.join(odd), b"x").unwrap();
                std::fs::create_dir_all(tree.join("a/b").join(odd)).unwrap();
                std::fs::create_dir_all(tree.join(".g/e")).unwrap();
                std::fs::write(tree.join(".g/f"), b"x").unwrap();
                if op["ro"] == true {
                    for f in ["a/f", "z", "a/b/c/f"] {
                        std::fs::set_permissions(tree.join(f), std::fs::Permissions::from_mode(if n == 1 { 0o400 } else { 0o444 })).unwrap();
                    }
                    std::fs::set_permissions(tree.join("a/b"), std::fs::Permissions::from_mode(0o555)).unwrap();
                }
                for (t, l) in [("../../outside/keep", "l1"), ("../../outside", "l2"), ("nowhere", "l3"), ("../../../outside/sub", "a/l4")] {
                    std::os::unix::fs::symlink(t, tree.join(l)).unwrap();
                }
            });
            if k == "tree" {
                // now and then the tree itself is a link
                let target = if n == 2 {
                    simrt::quiet(|| std::os::unix::fs::symlink("../outside", base.join("link")).unwrap());
                    base.join("link")
                } else {
                    tree.clone()
                };
                match paths::remove_dir_all(&target) {
                    Ok(()) => {
                        if simrt::quiet(|| std::fs::symlink_metadata(&target).is_ok()) {
                            viol(&["S04"], "not-removed", "remove_dir_all succeeded, but the tree is still there");
                        }
                        hit(P::cleanup_ok);
                    }
                    Err(e) => bad("remove_dir_all", e),
                }
            } else {
                let fs = Filesystem::new(tree.clone());
                match fs.open_rw_exclusive_create(lk, "m") {
                    Ok(l) => match l.remove_siblings() {
                        Ok(()) => {
                            let left: Vec<_> = simrt::quiet(|| std::fs::read_dir(&tree).unwrap().map(|e| e.unwrap().file_name()).collect());
                            if left != vec![std::ffi::OsString::from(lk)] {
                                viol(&["S04"], "siblings", &format!("remove_siblings left {left:?}"));
                            }
                        }
                        Err(e) => bad("remove_siblings", e),
                    },
                    Err(e) => bad("open_rw_exclusive_create", e),
                }
                if !simrt::quiet(|| tree.join(lk).exists()) {
                    viol(&["S04"], "siblings", "remove_siblings removed the locked file itself");
                }
            }
            check_outside();
        }
    }
}
fn temp_op(me: usize, op: &Value, bad: impl Fn(&str, anyhow::Error)) {
    struct Unwound;
    let base = root().join("tmp");
    let mut seen = PathBuf::new();
    let (mut calls, mut gone) = (0, false);
    let end = op["end"].as_str().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        paths::temp_dir_in(&base, |d| {
            calls += 1;
            seen = d.to_owned();
            hit(P::tempdirs);
            let fresh = simrt::quiet(|| d.parent() == Some(&*base) && std::fs::read_dir(d).is_ok_and(|mut x| x.next().is_none()));
            if !fresh {
                viol(&["S04"], "temp-shared", "the temporary directory is not a new, empty one in the given path");
            }
            simrt::quiet(|| {
                for i in 0..op["files"].as_u64().unwrap() {
                    std::fs::create_dir_all(d.join(format!("s{i}"))).unwrap();
                    std::fs::write(d.join(format!("s{i}/f")), b"x").unwrap();
                }
                std::fs::write(d.join("mine"), me.to_string()).unwrap();
            });
            work(10);
            pause(op["wait"].as_u64().unwrap());
            if simrt::quiet(|| std::fs::read(d.join("mine")).ok()) != Some(me.to_string().into_bytes()) {
                gone = true;
            }
            simrt::quiet(|| match end {
                // the function disposes of its directory itself
                "moved" => std::fs::rename(d, root().join(format!("result{me}-{}", op["id"]))).unwrap(),
                "removed" => std::fs::remove_dir_all(d).unwrap(),
                "locked" => {
                    std::fs::create_dir_all(d.join("ro/x")).unwrap();
                    std::fs::set_permissions(d.join("ro"), std::fs::Permissions::from_mode(0o555)).unwrap();
                }
                _ => {}
            });
            match end {
                "panic" => std::panic::resume_unwind(Box::new(Unwound)),
                "err" => anyhow::bail!("wanted"),
                "nested" => paths::temp_dir_in(d, |x| Ok(x.starts_with(d))).map(|b| if b { 7 } else { 0 }),
                _ => Ok(7),
            }
        })
    }));
    if gone {
        viol(&["S04"], "temp-gone", "the temporary directory changed while its function was running");
    }
    if calls > 1 {
        viol(&["S04"], "temp-twice", "the function was called more than once");
    }
    match (r, calls) {
        (Err(p), _) => {
            if end != "panic" || !p.is::<Unwound>() {
                viol(&["S04"], "temp-panic", "temp_dir_in panicked");
            }
        }
        (Ok(Ok(7)), 1) if end != "err" && end != "panic" => {}
        (Ok(Ok(v)), _) => viol(&["S04"], "temp-result", &format!("temp_dir_in returned Ok({v}) for a function that ended with {end}")),
        (Ok(Err(e)), _) => {
            if end == "err" && calls == 1 && e.to_string() == "wanted" {
            } else if calls == 1 && end != "nested" {
                viol(&["S04"], "temp-result", &format!("the function ended with {end}, temp_dir_in with: {e:#}"));
            } else {
                bad("temp_dir_in", e);
            }
        }
    }
    if calls == 1 && simrt::fired(&[F_UNLINK, F_OPEN]) == 0 && simrt::quiet(|| std::fs::symlink_metadata(&seen).is_ok()) {
        viol(&["S04"], "temp-left", &format!("the temporary directory is still there after the function ended with {end}"));
    }
}
