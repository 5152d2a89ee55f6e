//! The file watcher: files change on disk while a set of them is watched.
use crate::core::*;
use crate::root;
use crate::probes::{hit, P};
use crate::util::{hook, set_rate, Racy};
use notify::sim as ino;
use serde_json::{json, Value};
use simrt::sched::*;
use std::os::unix::fs::MetadataExt;
use std::path::PathBuf;
use std::sync::Arc;
use tinymist_project::watch_deps;
use tinymist_std::ImmutPath;
use tinymist_vfs::notify::{FilesystemEvent, NotifyDeps, NotifyMessage, UpstreamUpdateEvent};
use tinymist_vfs::FileSnapshot;
use tokio::sync::{mpsc, oneshot};
use typst::diag::FileError;

const NP: usize = 4;
const MS: u64 = 1_000_000;
const KERNEL: u64 = 0x7700_0001;
const COMPILER: u64 = 0x7700_0002;
fn file(p: usize) -> PathBuf {
    root().join(["a.typ", "b.typ", "d/c.typ", "new.typ"][p])
}
fn index(f: &std::path::Path) -> Option<usize> {
    (0..NP).find(|p| file(*p) == f)
}
/// A file's content: none if it is missing.
type Now = Option<Vec<u8>>;

#[derive(Default)]
struct State {
    /// what is on disk, and since when
    disk: Vec<Vec<(u64, Now)>>,
    /// what the consumer was told last
    told: Vec<Option<Result<Vec<u8>, FileError>>>,
    /// the set that was synchronised last, and when each of its files was seen to
    deps: Option<Vec<usize>>,
    synced: Vec<Option<(u64, u64)>>,
    /// upstream events: sent, and come back
    up_sent: Vec<u64>,
    up_seen: Vec<u64>,
    removed: bool,
    watch_fails: bool,
    watcher_fails: bool,
    exited: bool,
    stop: bool,
    /// does a compilation follow what is reported, and is one due?
    follow: bool,
    due: bool,
    /// the set that was asked for last
    want: u64,
    fails: u64,
    fail_at: Vec<u64>,
    /// an upstream update being processed: its files and when it was sent
    upping: Option<(Vec<usize>, u64)>,
    last_change: u64,
    done: bool,
    torn: bool,
}
static S: Racy<Option<State>> = Racy(std::cell::UnsafeCell::new(None));
fn st() -> &'static mut State {
    S.get().as_mut().unwrap()
}
fn say(m: std::fmt::Arguments) {
    if simrt::shm::shm().trace != 0 {
        simrt::trace_msg(&simrt::quiet(|| m.to_string()));
    }
}

pub fn gen_watch(r: &mut Rng, e: &Env) -> Value {
    let mut ops = vec![];
    let n = r.range(4, if e.thorough { 40 } else { 22 });
    let focus = r.below(NP);
    let deps = *r.pick(&[1, 3, 7, 15, 15, 1 << focus]);
    let mut c = 0u64;
    let torn = r.chance(60);
    ops.push(json!({"t": "own", "k": "sync", "set": deps, "wait": 0}));
    // a long life: dependencies that are dropped grow old
    if r.chance(8) {
        let k = r.range(26, 34);
        for i in 0..k {
            ops.push(json!({"t": "own", "k": if r.chance(80) { "sync" } else { "up" }, "set": deps & !(1 << focus), "wait": 0, "u": 1000 + i}));
        }
    }
    for i in 0..n {
        let wait = *r.weighted(&[(3, 0), (3, 2), (2, 20), (3, 45), (2, 60), (2, 110), (1, 300)]);
        if r.chance(70) {
            c += 1;
            let k = *r.weighted(&[(if torn { 5 } else { 0 }, "write"), (4, "replace"), (3, "remove"), (2, "away"), (2, "back"), (3, "create"), (2, "same"), (1, "touch"),
                (2, "recreate"), (if torn { 2 } else { 0 }, "empty"), (1, "vim")]);
            ops.push(json!({"t": "disk", "k": k, "p": if r.chance(65) { focus } else { r.below(NP) }, "c": c, "wait": wait,
                "gap": *r.weighted(&[(3, 0), (3, 1), (3, 15), (2, 40), (2, 49), (2, 70), (1, 200)])}));
        } else {
            let k = *r.weighted(&[(5, "sync"), (4, "up")]);
            let set = if r.chance(70) { deps } else { r.below(1 << NP) };
            let set = if k == "up" { if r.chance(60) { 1 << r.below(NP) } else { r.below(1 << NP) } } else { set };
            ops.push(json!({"t": "own", "k": k, "set": set, "wait": wait, "u": i}));
        }
    }
    let mut rates = serde_json::Map::new();
    set_rate(&mut rates, r, 15, "short_read", &[100, 500]);
    set_rate(&mut rates, r, 15, "read_eintr", &[100, 300]);
    set_rate(&mut rates, r, 8, "read_error", &[50, 200]);
    set_rate(&mut rates, r, 8, "open_error", &[30, 100]);
    set_rate(&mut rates, r, 20, "spurious_futex_wake", &[100]);
    let fail: Vec<u64> = if r.chance(10) { (0..r.range(1, 3)).map(|_| r.below(12) as u64).collect() } else { vec![] };
    json!({"ops": ops, "lat": (0..r.range(1, 5)).map(|_| *r.weighted(&[(4, 0), (2, 1), (2, 10), (1, 30)])).collect::<Vec<u64>>(),
        "fail": fail, "no_watcher": r.chance(3), "close": r.chance(40), "follow": r.chance(60), "compile": *r.pick(&[0, 1, 8, 40]), "missing": r.below(1 << NP) & r.below(1 << NP), "rates": rates, "torn": torn})
}

fn text(p: usize, c: u64) -> Vec<u8> {
    format!("{p}:{c}:{}", "y".repeat((c * 7 % 30) as usize)).into_bytes()
}
fn changed(p: usize, now: Now) {
    let s = st();
    s.last_change = simrt::now();
    say(format_args!("file {p} is now {}", show(&now)));
    if s.disk[p].last().map(|l| &l.1) != Some(&now) {
        s.disk[p].push((simrt::now(), now));
    }
}
fn show(n: &Now) -> String {
    n.as_ref().map_or("missing".into(), |b| format!("{:?}", String::from_utf8_lossy(b)))
}
fn current(p: usize) -> &'static Now {
    &st().disk[p].last().unwrap().1
}
fn inode(p: usize) -> Option<u64> {
    std::fs::metadata(file(p)).ok().map(|m| m.ino())
}
fn post(i: Option<u64>, k: notify::EventKind) {
    if let Some(i) = i {
        ino::post(i, k);
    }
}
/// Changes the disk; all of it, and what the kernel notes about it, at once.
fn at_once(f: impl FnOnce()) {
    simrt::quiet(f);
    simrt::wake_all(KERNEL);
}
fn disk(op: &Value) {
    simrt::sleep(op["wait"].as_u64().unwrap() * MS);
    let p = op["p"].as_u64().unwrap() as usize;
    let gap = op["gap"].as_u64().unwrap() * MS;
    let f = file(p);
    let new = text(p, op["c"].as_u64().unwrap());
    let tmp = root().join("tmp");
    let aside = root().join(format!("aside{p}"));
    let have = current(p).is_some();
    let k = op["k"].as_str().unwrap();
    say(format_args!("disk {op}"));
    match k {
        "write" | "empty" if have => {
            at_once(|| {
                std::fs::write(&f, b"").unwrap();
                post(inode(p), ino::modify());
                changed(p, Some(vec![]));
            });
            if k == "write" {
                simrt::sleep(gap);
                at_once(|| {
                    std::fs::write(&f, &new).unwrap();
                    post(inode(p), ino::modify());
                    post(inode(p), ino::close_write());
                    changed(p, Some(new));
                });
            }
        }
        "replace" | "same" => at_once(|| {
            let body = match current(p) {
                Some(b) if k == "same" => b.clone(),
                _ => new,
            };
            let i = inode(p);
            std::fs::write(&tmp, &body).unwrap();
            std::fs::rename(&tmp, &f).unwrap();
            post(i, ino::metadata());
            post(i, ino::removed());
            changed(p, Some(body));
        }),
        "remove" | "recreate" if have => {
            let old = current(p).clone().unwrap();
            at_once(|| {
                let i = inode(p);
                std::fs::remove_file(&f).unwrap();
                post(i, ino::metadata());
                post(i, ino::removed());
                changed(p, None);
            });
            if k == "recreate" {
                simrt::sleep(gap);
                at_once(|| {
                    let body = if op["c"].as_u64().unwrap() % 3 == 0 { old } else { new };
                    std::fs::write(&tmp, &body).unwrap();
                    std::fs::rename(&tmp, &f).unwrap();
                    changed(p, Some(body));
                });
            }
        }
        "create" if !have => at_once(|| {
            std::fs::write(&tmp, &new).unwrap();
            std::fs::rename(&tmp, &f).unwrap();
            changed(p, Some(new));
        }),
        "away" if have => {
            at_once(|| {
                let i = inode(p);
                std::fs::rename(&f, &aside).unwrap();
                post(i, ino::moved());
                changed(p, None);
            });
        }
        "back" => at_once(|| {
            if let Ok(b) = std::fs::read(&aside) {
                let (i, a) = (inode(p), std::fs::metadata(&aside).ok().map(|m| m.ino()));
                std::fs::rename(&aside, &f).unwrap();
                post(a, ino::moved());
                post(i, ino::removed());
                changed(p, Some(b));
            }
        }),
        "touch" if have => at_once(|| post(inode(p), ino::metadata())),
        "vim" if have => {
            let bak = root().join("bak");
            at_once(|| {
                let i = inode(p);
                std::fs::rename(&f, &bak).unwrap();
                post(i, ino::moved());
                changed(p, None);
            });
            simrt::sleep(gap.min(5 * MS));
            at_once(|| {
                std::fs::write(&tmp, &new).unwrap();
                std::fs::rename(&tmp, &f).unwrap();
                changed(p, Some(new));
            });
            at_once(|| {
                let i = std::fs::metadata(&bak).ok().map(|m| m.ino());
                let _ = std::fs::remove_file(&bak);
                post(i, ino::removed());
            });
        }
        _ => {}
    }
}

/// The set of dependencies; tells when the watcher goes through it.
#[derive(Debug)]
struct Deps {
    set: Vec<usize>,
    sync: bool,
}
impl NotifyDeps for Deps {
    fn dependencies(&self, f: &mut dyn FnMut(&ImmutPath)) {
        say(format_args!("the watcher goes through {:?}", self.set));
        if self.sync {
            st().deps = Some(self.set.clone());
            st().synced = vec![None; NP];
        }
        for p in &self.set {
            let from = simrt::now();
            f(&file(*p).into());
            if self.sync {
                st().synced[*p] = Some((from, simrt::now()));
            }
        }
        hit(P::dependencies_synced);
    }
}
struct Exit(Option<oneshot::Sender<()>>);
impl Drop for Exit {
    fn drop(&mut self) {
        let _ = self.0.take().map(|s| s.send(()));
    }
}

fn consume(event: FilesystemEvent) {
    let s = st();
    say(format_args!("the watcher tells {event:?}"));
    let (set, up) = match event {
        FilesystemEvent::Update(set) => (set, None),
        FilesystemEvent::UpstreamUpdate { changeset, upstream_event } => (changeset, Some(upstream_event)),
    };
    for f in &set.removes {
        let Some(p) = index(f) else {
            return viol(&["V02"], "made-up", "a file is dropped that nobody asked for");
        };
        hit(P::watch_dropped);
        s.removed = true;
        if s.deps.as_ref().is_some_and(|d| d.contains(&p)) {
            viol(&["V02"], "dropped", &format!("file {p} is dropped although it is still a dependency"));
        }
        s.told[p] = None;
    }
    if s.follow && !set.inserts.is_empty() {
        s.due = true;
        simrt::wake_all(COMPILER);
    }
    for (f, snap) in &set.inserts {
        let Some(p) = index(f) else {
            return viol(&["V02"], "made-up", "a file is reported that nobody asked for");
        };
        let snap: &FileSnapshot = snap;
        let got = match snap.content() {
            Ok(b) => Ok(b.as_slice().to_vec()),
            Err(e) => Err(e.clone()),
        };
        match &got {
            Ok(b) if b.is_empty() => hit(P::empties_reported),
            Ok(_) => hit(P::changes_reported),
            Err(_) => hit(P::removals_reported),
        }
        judge(p, &got, up.is_some());
        s.told[p] = Some(got);
    }
    if let Some(up) = up {
        hit(P::upstream_updates);
        let n = up.as_ref().and_then(|u| u.opaque.downcast_ref::<u64>()).copied();
        match n {
            Some(n) => s.up_seen.push(n),
            None => viol(&["V02"], "upstream", "an upstream update comes back without what was sent with it"),
        }
        if s.up_seen[..] != s.up_sent[..s.up_seen.len().min(s.up_sent.len())] {
            viol(&["V02"], "upstream", &format!("upstream updates {:?} were sent and {:?} came back", s.up_sent, s.up_seen));
        }
    }
}
fn faulty() -> bool {
    simrt::fired(&[F_EIO_R, F_OPEN, F_META]) > 0
}
/// Is what is reported of file `p` true?
fn judge(p: usize, got: &Result<Vec<u8>, FileError>, _up: bool) {
    let s = st();
    if faulty() {
        return;
    }
    let now: Now = match got {
        Ok(b) => Some(b.clone()),
        Err(FileError::NotFound(_)) => None,
        Err(e) => return viol(&["V02"], "made-up", &format!("file {p} is reported to be unreadable: {e}")),
    };
    if !s.torn && !s.disk[p].iter().any(|(_, n)| *n == now) {
        return viol(&["V02"], "made-up", &format!("file {p} is reported to be {}, which it never was", show(&now)));
    }
    // without a watcher there is no one to wait for the rest of it
    if s.watcher_fails {
        return;
    }
    let gone = |n: &Now| n.as_ref().is_none_or(|b| b.is_empty());
    // a file that is only just being written is not reported as empty
    if gone(&now) && matches!(&s.told[p], Some(Ok(b)) if !b.is_empty()) {
        let mut spans = vec![];
        for (i, (t, n)) in s.disk[p].iter().enumerate() {
            if !gone(n) {
                continue;
            }
            let end = s.disk[p].get(i + 1).map_or(simrt::now(), |n| n.0);
            match spans.last_mut() {
                Some((_, e)) if *e == *t => *e = end,
                _ => spans.push((*t, end)),
            }
        }
        if spans.len() == 1 && spans[0].1 - spans[0].0 < 49 * MS {
            let t = (spans[0].1 - spans[0].0) / 1000;
            viol(&["V02"], "hasty", &format!("file {p} is reported to be {}, which it was for {t} us only", show(&now)));
        }
    }
}
/// Does the consumer know the content of `p`?
fn knows(p: usize) -> bool {
    let s = st();
    match (&s.told[p], current(p)) {
        // not under notification: the disk is read
        (None, _) => true,
        (Some(Ok(a)), Some(b)) => a == b,
        (Some(Err(FileError::NotFound(_))), None) => true,
        _ => false,
    }
}
fn told(p: usize) -> String {
    match &st().told[p] {
        None => "nothing".into(),
        Some(Ok(b)) => format!("{:?}", String::from_utf8_lossy(b)),
        Some(Err(e)) => format!("{e:?}"),
    }
}
fn fails(what: &str) -> bool {
    let s = st();
    if what == "watcher" {
        return s.watcher_fails;
    }
    s.fails += 1;
    let f = s.fail_at.contains(&s.fails);
    s.watch_fails |= f;
    if f {
        hit(P::watches_refused);
    }
    f
}

pub fn run_watch(cfg: &Value) {
    hook(&["V02"]);
    *S.get() = Some(State { told: vec![None; NP], synced: vec![None; NP], ..State::default() });
    let s = st();
    s.watcher_fails = cfg["no_watcher"] == true;
    s.follow = cfg["follow"] == true && !s.watcher_fails;
    s.torn = cfg["torn"] == true || cfg["rates"]["short_read"].is_number();
    s.fail_at = cfg["fail"].as_array().unwrap().iter().filter_map(|v| v.as_u64()).collect();
    simrt::quiet(|| {
        std::fs::create_dir_all(root().join("d")).unwrap();
        *ino::FAIL.lock().unwrap() = Some(fails);
        *ino::NOW.lock().unwrap() = Some(simrt::now);
        for p in 0..NP {
            let there = cfg["missing"].as_u64().unwrap() & 1 << p == 0;
            let now = there.then(|| text(p, 900));
            if let Some(b) = &now {
                std::fs::write(file(p), b).unwrap();
            }
            st().disk.push(vec![(0, now)]);
        }
    });
    let cfg = Arc::new(cfg.clone());
    let (tx, rx) = mpsc::unbounded_channel();
    let actor = std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        let (etx, erx) = oneshot::channel();
        rt.block_on(async move {
            let exit = Exit(Some(etx));
            watch_deps(rx, move |e| {
                let _keep = &exit;
                consume(e)
            })
            .await;
            let _ = erx.await;
        });
        st().exited = true;
    });
    let lat: Vec<u64> = cfg["lat"].as_array().unwrap().iter().map(|l| l.as_u64().unwrap()).collect();
    let kernel = std::thread::spawn(move || {
        let mut i = 0;
        while !st().stop {
            if ino::pending() == 0 {
                simrt::block_on_until(KERNEL, simrt::now() + 100 * MS);
                continue;
            }
            simrt::sleep(lat[i % lat.len()] * MS);
            i += 1;
            ino::deliver();
            hit(P::inotify_events);
        }
    });
    let c = cfg.clone();
    let d = std::thread::spawn(move || {
        for op in c["ops"].as_array().unwrap() {
            if op["t"] == "disk" {
                disk(op);
            }
        }
    });
    let send = |m: NotifyMessage| {
        if tx.send(m).is_err() {
            viol(&["V02"], "exit", "the watcher has gone although nobody asked it to");
        }
    };
    let sync = |bits: u64, up: Option<u64>| {
        let set: Vec<usize> = (0..NP).filter(|p| bits & 1 << p != 0).collect();
        match up {
            None => {
                st().want = bits;
                send(NotifyMessage::SyncDependency(Box::new(Deps { set, sync: true })))
            }
            Some(u) => {
                st().up_sent.push(u);
                say(format_args!("upstream update {u} of {set:?}"));
                send(NotifyMessage::UpstreamUpdate(UpstreamUpdateEvent {
                    invalidates: set.iter().map(|p| file(*p).into()).collect(),
                    opaque: Box::new(u),
                }))
            }
        }
    };
    // what is reported is compiled, and what it depends on is watched
    let (t, c) = (tx.clone(), cfg.clone());
    let compiler = std::thread::spawn(move || {
        while !st().stop {
            if !std::mem::take(&mut st().due) {
                simrt::block_on_until(COMPILER, simrt::now() + 100 * MS);
                continue;
            }
            simrt::sleep(c["compile"].as_u64().unwrap_or(0) * MS);
            let set = (0..NP).filter(|p| st().want & 1 << p != 0).collect();
            if t.send(NotifyMessage::SyncDependency(Box::new(Deps { set, sync: true }))).is_err() {
                break;
            }
        }
    });
    for op in cfg["ops"].as_array().unwrap() {
        if op["t"] == "own" {
            simrt::sleep(op["wait"].as_u64().unwrap() * MS);
            sync(op["set"].as_u64().unwrap(), (op["k"] == "up").then(|| op["u"].as_u64().unwrap()));
        }
    }
    let _ = d.join();
    // the disk rests: what is watched is known without being asked for
    let rest = || {
        let mut calm = 0;
        while calm < 2 {
            let h = simrt::now() + 300 * MS;
            wait_idle(h);
            // the clock may have leapt over those who wanted to run
            calm = if simrt::now() <= h + MS && ino::pending() == 0 && !st().due { calm + 1 } else { 0 };
        }
    };
    rest();
    let s = st();
    if s.up_seen != s.up_sent {
        viol(&["V02"], "upstream", &format!("upstream updates {:?} were sent and only {:?} came back", s.up_sent, s.up_seen));
    }
    if !s.watch_fails && !s.watcher_fails && !faulty() {
        for p in s.deps.clone().unwrap_or_default() {
            let Some((from, to)) = s.synced[p] else { continue };
            if !there(p, from, to) {
                continue;
            }
            hit(P::watched_at_rest);
            if !knows(p) {
                viol(&["V02"], "missed", &format!("file {p}, a dependency, is {} but was reported as {}", show(current(p)), told(p)));
            }
        }
    }
    simrt::faults_off();
    sync((1 << NP) - 1, None);
    rest();
    for p in 0..NP {
        if !knows(p) {
            viol(&["V02"], "stale", &format!("after a synchronisation file {p} is {} but was reported as {}", show(current(p)), told(p)));
        }
    }
    st().stop = true;
    simrt::wake_all(COMPILER);
    let _ = compiler.join();
    if cfg["close"] == true {
        drop(tx);
    } else {
        let _ = tx.send(NotifyMessage::Settle);
    }
    let _ = actor.join();
    simrt::wake_all(KERNEL);
    let _ = kernel.join();
}
/// Was the file there while the watch was set up, and never gone for long?
fn there(p: usize, from: u64, to: u64) -> bool {
    // from, until, and whether it was missing rather than empty
    let mut gone: Vec<(u64, u64, bool)> = vec![];
    let d = &st().disk[p];
    for (i, (t, n)) in d.iter().enumerate() {
        let end = d.get(i + 1).map_or(u64::MAX, |n| n.0);
        if n.as_ref().is_some_and(|b| !b.is_empty()) || end < from {
            continue;
        }
        match gone.last_mut() {
            // the watcher may not have seen what was in between, and looks
            // again when the first of it is 50 ms old
            Some((_, e, m)) if *t < e.saturating_add(150 * MS) => (*e, *m) = (end, *m || n.is_none()),
            _ => gone.push((*t, end, n.is_none())),
        }
    }
    // gone for good is reported; gone for long and back is not noticed
    // a file that comes back while it is looked at is reported, but only
    // watched when the compilation that follows synchronises
    let follow = st().follow;
    gone.iter().all(|(t, e, missing)| !missing || follow && (*t > to && (e - t < 45 * MS || *e == u64::MAX && current(p).is_none())))
}
