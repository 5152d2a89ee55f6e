//! Lock files: processes and threads that update, read and resolve the
//! project lock files of two directories at once.
use crate::core::*;
use crate::probes::{hit, P};
use crate::root;
use crate::util::{any_crash, gen_crash, hook, pause, run_actors, set_rate};
use serde_json::{json, Map, Value};
use simrt::sched::*;
use simrt::shm::shm;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Arc;
use tinymist::ServerState;
use tinymist_project::{ApplyProjectTask, Id, LockFile, ProjectInput, ProjectRoute, LOCK_FILENAME};

const PROPS: &[&str] = &["P02"];
const MAXOPS: usize = 24;
// shared memory, by operation: when it began, when it ended and how, and what it read
const BEGIN: usize = 0;
const END: usize = 32;
const RES: usize = 64;
const READ: usize = 96; // 3 words each
const CLOCK: usize = 200;
const TORN: usize = 201; // a write failed or was cut by a crash, per directory
const BUSY: usize = 208; // by process and thread, the directory it is updating + 1
const WRITES: &[u32] = &[F_ENOSPC, F_EIO_W];
const DISK: &[u32] = &[F_OPEN, F_META, F_RENAME, F_ENOSPC, F_EIO_W, F_EIO_R, F_UNLINK, F_TEMPCLASH, F_FLOCK_EINTR, F_FLOCK_ERR];
const OK: u64 = 1;
const REFUSED: u64 = 2;
const FAILED: u64 = 3;
const INITS: [&str; 8] = ["none", "empty", "blank", "some", "future", "past", "garbage", "binary"];
const BAD: [&str; 4] = ["future", "past", "garbage", "binary"];

fn dir(d: usize) -> PathBuf {
    if d == 0 { root().join("proj") } else { root().join("proj/sub") }
}
fn leaf(i: usize) -> PathBuf {
    root().join(["proj/a.typ", "proj/sub/b.typ", "proj/sub/deep/c.typ", "other/x.typ", "proj/sub/b c.typ"][i])
}
const LEAVES: usize = 5;
fn doc(i: usize) -> Id {
    Id::new(["file:a.typ", "file:sub/b.typ", "zett \"x\" = ü"][i].to_string())
}

fn input(i: usize, v: u64) -> ProjectInput {
    let mut o = json!({"id": doc(i), "main": format!("file:m{v}.typ"), "inputs": [], "system-fonts": v % 2 == 0});
    if v % 3 > 0 {
        o["root"] = json!("file:.");
    }
    if v % 5 > 2 {
        o["inputs"] = json!([["k", "v"], ["w x", format!("a\n\"{v}\"#")]]);
        o["font-paths"] = json!(["file:f", format!("file:{v}")]);
    }
    serde_json::from_value(o).unwrap()
}
fn task(i: usize, d: usize, v: u64) -> ApplyProjectTask {
    let mut o = json!({"id": format!("t{i}"), "document": doc(d), "when": *["never", "onType", "onSave"].get((v % 3) as usize).unwrap()});
    let m = o.as_object_mut().unwrap();
    match v % 4 {
        0 => {
            m.insert("type".into(), json!("preview"));
        }
        1 => {
            m.insert("type".into(), json!("export-pdf"));
            m.insert("creation-timestamp".into(), json!(v));
        }
        2 => {
            m.insert("type".into(), json!("export-svg"));
            m.insert("output".into(), json!(format!("$root/{v}/$name")));
            m.insert("transform".into(), json!([{"merge": {"gap": "1pt"}}, {"pretty": {}}]));
        }
        _ => {
            m.insert("type".into(), json!("query"));
            m.insert("format".into(), json!("json"));
            m.insert("selector".into(), json!(format!("<l{v}>")));
            m.insert("one".into(), json!(v % 8 > 3));
            m.insert("transform".into(), json!([{"script": {"script": format!("#let f(x) = {{x.{v}}}\n")}}]));
        }
    }
    serde_json::from_value(o).unwrap()
}
fn route(id: Id, priority: u64) -> ProjectRoute {
    serde_json::from_value(json!({"id": id, "priority": priority})).unwrap()
}
fn mark(i: usize) -> Id {
    Id::new(format!("op {i}"))
}

pub fn gen_lock(r: &mut Rng, e: &Env) -> Value {
    let np = r.range(1, 3);
    let nt = r.range(if np == 1 { 2 } else { 1 }, 3);
    let n = r.range(2, if e.thorough { MAXOPS } else { 14 });
    let two = r.chance(40);
    let ops: Vec<Value> = (0..n)
        .map(|i| {
            let k = *r.weighted(&[(6, "update"), (6, "commit"), (4, "read"), (1, "refuse")]);
            let mut c = vec![];
            for _ in 0..r.range(0, 3) {
                let v = r.below(1000);
                c.push(match r.below(4) {
                    0 if k != "commit" => json!(["doc", r.below(3), v]),
                    1 => json!(["route", r.below(3), v]),
                    2 if k == "commit" => json!(["mat", r.below(3), r.below(1 << LEAVES)]),
                    _ => json!(["task", r.below(3), r.below(3), v]),
                });
            }
            json!({"p": r.below(np), "t": r.below(nt), "i": i, "k": k, "d": if two { r.below(2) } else { 0 }, "c": c, "wait": if r.chance(60) { 0 } else { r.below(6) }})
        })
        .collect();
    let mut rates = Map::new();
    set_rate(&mut rates, r, 30, "write_eintr", &[50, 300]);
    set_rate(&mut rates, r, 40, "short_write", &[100, 500]);
    set_rate(&mut rates, r, 30, "short_read", &[100, 500]);
    set_rate(&mut rates, r, 30, "flock_eintr", &[50, 200]);
    set_rate(&mut rates, r, 15, "open_error", &[30, 200]);
    set_rate(&mut rates, r, 15, "read_error", &[30, 200]);
    set_rate(&mut rates, r, 15, "flock_error", &[30, 200]);
    set_rate(&mut rates, r, 15, "metadata_syscall_error", &[30, 150]);
    set_rate(&mut rates, r, 8, "disk_full", &[20, 100]);
    set_rate(&mut rates, r, 8, "write_error", &[20, 100]);
    set_rate(&mut rates, r, 20, "spurious_futex_wake", &[100]);
    let inits: Vec<&str> = (0..2).map(|_| *r.weighted(&[(6, "none"), (1, "empty"), (1, "blank"), (8, "some"), (1, "future"), (1, "past"), (1, "garbage"), (1, "binary")])).collect();
    json!({"procs": np, "threads": nt, "ops": ops, "init": inits, "rates": rates, "crash": if r.chance(30) { gen_crash(r, np, 40, 1200) } else { json!([]) }})
}

/// What a lock file holds after some operations, and the files of each document.
#[derive(Default, Clone)]
struct Model {
    docs: BTreeMap<String, ProjectInput>,
    tasks: BTreeMap<String, ApplyProjectTask>,
    routes: Vec<ProjectRoute>,
}
impl Model {
    fn start(init: &str) -> Model {
        let mut m = Model::default();
        if init == "some" {
            m.docs.insert(doc(0).to_string(), input(0, 4));
            m.tasks.insert("t1".into(), task(1, 2, 7));
            m.tasks.insert("t9".into(), task(9, 0, 2));
            m.routes = vec![route(doc(1), 3), route(doc(0), 1)];
        }
        m
    }
    fn route(&mut self, r: ProjectRoute) {
        self.routes.retain(|x| x.id != r.id);
        self.routes.push(r);
    }
    fn apply(&mut self, op: &Value) {
        self.route(route(mark(op["i"].as_u64().unwrap() as usize), 5));
        for c in op["c"].as_array().unwrap() {
            let n = |i: usize| c[i].as_u64().unwrap();
            let u = |i: usize| n(i) as usize;
            match c[0].as_str().unwrap() {
                "doc" => drop(self.docs.insert(doc(u(1)).to_string(), input(u(1), n(2)))),
                "route" => self.route(route(doc(u(1)), n(2))),
                "task" => drop(self.tasks.insert(format!("t{}", n(1)), task(u(1), u(2), n(3)))),
                _ => {}
            }
        }
    }
    fn lock(&self) -> LockFile {
        let mut task: Vec<_> = self.tasks.values().cloned().collect();
        task.sort_by_key(|t| (t.doc_id().to_string(), t.id().to_string()));
        LockFile { document: self.docs.values().cloned().collect(), task, route: self.routes.iter().cloned().collect() }
    }
}
fn marks(l: &LockFile) -> Vec<usize> {
    l.route.iter().filter_map(|r| r.id.to_string().strip_prefix("op ")?.parse().ok()).collect()
}
fn replay(cfg: &Value, d: usize, order: &[usize]) -> Model {
    let mut m = Model::start(cfg["init"][d].as_str().unwrap());
    for i in order {
        m.apply(&cfg["ops"][*i]);
    }
    m
}
fn initial(kind: &str) -> Option<Vec<u8>> {
    Some(match kind {
        "none" => return None,
        "empty" => vec![],
        "blank" => b" \n\n\t\n".to_vec(),
        "some" => {
            // as somebody could have written it
            let s = Model::start("some").lock().serialize_resolve();
            s.replace("\n[[task]]", "\n# a remark\n\n[[task]]").into_bytes()
        }
        "future" => b"version = \"99.1.0\"\n[[new]]\nx = 1\n".to_vec(),
        "past" => b"version = \"0.0.9\"\n[old]\nx = 1\n".to_vec(),
        "garbage" => b"version = \"0.1.0-beta0\"\n[[route]]\nid = ".to_vec(),
        _ => b"version = \"0.1.0-beta0\"\n\xff\xfe\n".to_vec(),
    })
}

fn tick() -> u64 {
    let s = shm();
    s.smem[CLOCK] += 1;
    s.smem[CLOCK]
}

pub fn run_lock(cfg: &Value) {
    hook(PROPS);
    simrt::quiet(|| {
        assert!(INITS.len() == 8);
        *dirs::BASE.lock().unwrap() = Some(root());
        std::fs::create_dir_all(dir(1).join("deep")).unwrap();
        std::fs::create_dir_all(root().join("other")).unwrap();
        for d in 0..2 {
            if let Some(b) = initial(cfg["init"][d].as_str().unwrap()) {
                std::fs::write(dir(d).join(LOCK_FILENAME), b).unwrap();
            }
        }
    });
    run_actors(cfg, one);
    let s = shm();
    if any_crash() {
        for b in BUSY..BUSY + 16 {
            if s.smem[b] > 0 {
                s.smem[TORN + s.smem[b] as usize - 1] = 1;
                hit(P::updater_crashed);
            }
        }
    }
    simrt::faults_off();
    let c = cfg.clone();
    let p = simrt::spawn_proc(move || last(&c));
    simrt::wait_proc(p);
}

fn one(cfg: &Value, me: usize, op: &Value) {
    let n = |k: &str| op[k].as_u64().unwrap() as usize;
    let (i, d) = (n("i"), n("d"));
    pause(n("wait") as u64);
    let s = shm();
    let torn0 = s.smem[TORN + d];
    s.smem[BEGIN + i] = tick();
    let (e0, w0) = (simrt::fired(DISK), simrt::fired(WRITES));
    let k = op["k"].as_str().unwrap();
    if k != "read" {
        s.smem[BUSY + me] = d as u64 + 1;
    }
    let bad = BAD.contains(&cfg["init"][d].as_str().unwrap());
    match k {
        "update" | "refuse" => {
            let mut ran = false;
            let r = LockFile::update(&dir(d), |l| {
                ran = true;
                change(l, op);
                if k == "refuse" {
                    tinymist_std::bail!("no");
                }
                Ok(())
            });
            let fine = simrt::fired(DISK) == e0;
            if simrt::fired(WRITES) > w0 && r.is_err() {
                s.smem[TORN + d] = 1;
            }
            s.smem[RES + i] = if r.is_ok() { OK } else if fine || k == "refuse" || bad { REFUSED } else { FAILED };
            simrt::hist(&format!("{me} {k} {i} {}", r.is_ok()));
            if r.is_ok() && (k == "refuse" || bad) {
                viol(PROPS, "refused", &format!("update {i} of the lock file {d} succeeds although it must not"));
            }
            if ran && bad {
                viol(PROPS, "refused", &format!("update {i} is given what is in the lock file {d}, which it cannot know"));
            }
            if let Err(e) = r {
                hit(P::updates_refused);
                if fine && !bad && k != "refuse" && torn(torn0, d) {
                    viol(PROPS, "failed", &format!("update {i} of the lock file {d} fails although nothing went wrong: {e}"));
                }
            }
        }
        "commit" => {
            let at: Arc<std::path::Path> = dir(d).into();
            let mut u = tinymist_project::update_lock(at);
            u.route(mark(i), 5);
            for c in op["c"].as_array().unwrap() {
                let n = |i: usize| c[i].as_u64().unwrap();
                match c[0].as_str().unwrap() {
                    "route" => u.route(doc(n(1) as usize), n(2) as u32),
                    "task" => u.task(task(n(1) as usize, n(2) as usize, n(3))),
                    _ => u.update_materials(doc(n(1) as usize), files(n(2)).into_iter().map(|f| f.into()).collect()),
                }
            }
            u.commit();
            if simrt::fired(WRITES) > w0 {
                s.smem[TORN + d] = 1;
            }
            // how it went is not told
            s.smem[RES + i] = if bad { REFUSED } else if simrt::fired(DISK) == e0 { OK } else { FAILED };
            simrt::hist(&format!("{me} commit {i}"));
        }
        _ => {
            let r = LockFile::read(&dir(d));
            simrt::hist(&format!("{me} read {i} {}", r.is_ok()));
            let fine = simrt::fired(DISK) == e0;
            if torn(torn0, d) {
                match r {
                    Ok(l) => {
                        hit(P::locks_read);
                        if bad {
                            return viol(PROPS, "read", &format!("the lock file {d} is read although it is not one"));
                        }
                        let m = marks(&l);
                        if !same(&l, &replay(cfg, d, &m).lock()) {
                            viol(PROPS, "read", &format!("the lock file {d} is read as {} after {m:?}", show(&l)));
                        }
                        s.smem[READ + 3 * i] = m.len() as u64 + 1;
                        for (j, x) in m.iter().enumerate() {
                            s.smem[READ + 3 * i + 1 + j / 12] |= (*x as u64) << (5 * (j % 12));
                        }
                        s.smem[RES + i] = OK;
                    }
                    Err(e) => {
                        let there = cfg["init"][d] == "some" || (0..cfg["ops"].as_array().unwrap().len()).any(|j| {
                            let o = &cfg["ops"][j];
                            o["d"] == op["d"] && o["k"] != "read" && s.smem[RES + j] == OK && s.smem[END + j] > 0 && s.smem[END + j] < s.smem[BEGIN + i]
                        });
                        if fine && there && !bad {
                            viol(PROPS, "failed", &format!("the lock file {d} cannot be read although nothing went wrong: {e}"));
                        }
                    }
                }
            }
        }
    }
    s.smem[BUSY + me] = 0;
    s.smem[END + i] = tick();
}
/// Nothing was torn, before and after.
fn torn(before: u64, d: usize) -> bool {
    before == 0 && shm().smem[TORN + d] == 0 && simrt::fired(WRITES) == 0 && !any_crash()
}
fn same(a: &LockFile, b: &LockFile) -> bool {
    a == b
}
fn show(l: &LockFile) -> String {
    let s = serde_json::to_string(l).unwrap();
    s.chars().take(600).collect()
}
fn files(set: u64) -> Vec<PathBuf> {
    (0..LEAVES).filter(|i| set >> i & 1 == 1).map(leaf).collect()
}
fn change(l: &mut LockFile, op: &Value) {
    l.replace_route(route(mark(op["i"].as_u64().unwrap() as usize), 5));
    for c in op["c"].as_array().unwrap() {
        let n = |i: usize| c[i].as_u64().unwrap();
        match c[0].as_str().unwrap() {
            "doc" => l.replace_document(input(n(1) as usize, n(2))),
            "route" => l.replace_route(route(doc(n(1) as usize), n(2))),
            _ => l.replace_task(task(n(1) as usize, n(2) as usize, n(3))),
        }
    }
}

fn last(cfg: &Value) {
    let s = shm();
    let ops = cfg["ops"].as_array().unwrap();
    let mut known: Vec<Option<Vec<usize>>> = vec![None, None];
    for d in 0..2 {
        let init = cfg["init"][d].as_str().unwrap();
        let file = dir(d).join(LOCK_FILENAME);
        if BAD.contains(&init) {
            let now = simrt::quiet(|| std::fs::read(&file).ok());
            if now != initial(init) {
                viol(PROPS, "kept", &format!("the lock file {d}, which is not one of this version, was changed to {:?}", now.map(|n| String::from_utf8_lossy(&n).into_owned())));
            }
            if LockFile::read(&dir(d)).is_ok() {
                viol(PROPS, "read", &format!("the lock file {d} is read although it is not one"));
            }
            known[d] = Some(vec![]);
            hit(P::foreign_locks_kept);
            continue;
        }
        if s.smem[TORN + d] > 0 {
            continue;
        }
        let mine = |i: &usize| ops[*i]["d"].as_u64() == Some(d as u64);
        let done: Vec<usize> = (0..ops.len()).filter(mine).filter(|i| ops[*i]["k"] != "read" && s.smem[RES + i] == OK && s.smem[END + i] > 0).collect();
        let l = match LockFile::read(&dir(d)) {
            Ok(l) => l,
            Err(e) => {
                if !done.is_empty() || init == "some" {
                    viol(PROPS, "failed", &format!("the lock file {d} cannot be read in the end: {e}"));
                } else {
                    known[d] = Some(vec![]);
                }
                continue;
            }
        };
        let order = marks(&l);
        hit(P::locks_checked);
        if !same(&l, &replay(cfg, d, &order).lock()) {
            viol(PROPS, "state", &format!("the lock file {d} holds {} after {order:?} rather than {}", show(&l), show(&replay(cfg, d, &order).lock())));
        }
        for i in &done {
            if !order.contains(i) {
                viol(PROPS, "lost", &format!("update {i} of the lock file {d} is lost, {order:?} are there"));
            }
        }
        for i in &order {
            if s.smem[RES + i] == REFUSED {
                viol(PROPS, "refused", &format!("update {i} of the lock file {d} failed but is there"));
            }
        }
        for (x, i) in order.iter().enumerate() {
            for j in &order[x + 1..] {
                if s.smem[END + j] > 0 && s.smem[END + j] < s.smem[BEGIN + i] {
                    viol(PROPS, "order", &format!("update {j} of the lock file {d} is over before {i} begins but comes after it"));
                }
            }
        }
        for i in (0..ops.len()).filter(mine) {
            if ops[i]["k"] != "read" || s.smem[RES + i] != OK {
                continue;
            }
            let n = s.smem[READ + 3 * i] as usize - 1;
            let got: Vec<usize> = (0..n).map(|j| (s.smem[READ + 3 * i + 1 + j / 12] >> (5 * (j % 12)) & 31) as usize).collect();
            if got.len() > order.len() || got[..] != order[..n] {
                viol(PROPS, "order", &format!("the lock file {d} was read as {got:?} while it was written as {order:?}"));
                continue;
            }
            for (x, j) in order.iter().enumerate() {
                if x >= n && s.smem[END + j] > 0 && s.smem[END + j] < s.smem[BEGIN + i] || x < n && s.smem[BEGIN + j] > s.smem[END + i] {
                    viol(PROPS, "order", &format!("the lock file {d} was read as {got:?}, {j} being another time"));
                }
            }
            hit(P::reads_ordered);
        }
        // an update that changes nothing needs no writing
        let before = simrt::quiet(|| std::fs::read(&file).unwrap());
        if let Err(e) = LockFile::update(&dir(d), |_| Ok(())) {
            viol(PROPS, "failed", &format!("an update of {d} that changes nothing fails: {e}"));
        }
        if !order.is_empty() && before != simrt::quiet(|| std::fs::read(&file).unwrap()) {
            viol(PROPS, "state", &format!("an update of {d} that changes nothing changes the lock file"));
        }
        known[d] = Some(order);
    }
    if simrt::fired(DISK) == 0 && !any_crash() {
        resolve(cfg, &known);
    }
}

/// The type of a part of the server's state, which has no public name.
fn empty<T: Default>(_: fn(&ServerState) -> &T) -> T {
    T::default()
}
/// Which project each file belongs to.
fn resolve(cfg: &Value, known: &[Option<Vec<usize>>]) {
    let (Some(a), Some(b)) = (&known[0], &known[1]) else { return };
    let mut state = empty(|s| &s.route);
    let mut orders = [a.clone(), b.clone()];
    for round in 0..2 {
        for i in 0..LEAVES {
            let want = belongs(cfg, &orders, i);
            let mut fresh = empty(|s| &s.route);
            for (who, st) in [("", &mut state), (" afresh", &mut fresh)] {
                let got = st.resolve(&leaf(i).into());
                let got = got.map(|r| (r.lock_dir.to_path_buf(), r.project_id.to_string()));
                if got != want {
                    viol(PROPS, "route", &format!("{:?} is resolved{who} to {got:?} rather than {want:?} (round {round})", leaf(i)));
                }
                hit(P::routes_checked);
                if got.is_some() {
                    hit(P::routes_found);
                }
            }
        }
        if round == 1 || cfg["init"].as_array().unwrap().iter().any(|i| BAD.contains(&i.as_str().unwrap())) {
            return;
        }
        // the routes of all documents change, the server is told
        for d in 0..2 {
            if LockFile::update(&dir(d), |l| {
                for i in [1, 0] {
                    l.replace_route(route(doc(i), 7));
                }
                Ok(())
            })
            .is_err()
            {
                viol(PROPS, "failed", "an update in the end fails");
            }
            state.update_lock(dir(d).into(), LockFile::read(&dir(d)).unwrap());
            orders[d].push(999);
        }
    }
}
fn belongs(cfg: &Value, orders: &[Vec<usize>; 2], i: usize) -> Option<(PathBuf, String)> {
    let leaf = leaf(i);
    let mut at = leaf.as_path();
    while let Some(p) = at.parent() {
        at = p;
        let Some(d) = (0..2).find(|d| dir(*d) == at) else { continue };
        let mut m = Model::start(cfg["init"][d].as_str().unwrap());
        let mut mats: BTreeMap<usize, u64> = BTreeMap::new();
        for i in &orders[d] {
            if *i == 999 {
                m.route(route(doc(1), 7));
                m.route(route(doc(0), 7));
                continue;
            }
            m.apply(&cfg["ops"][*i]);
            for c in cfg["ops"][*i]["c"].as_array().unwrap() {
                if c[0] == "mat" {
                    mats.insert(c[1].as_u64().unwrap() as usize, c[2].as_u64().unwrap());
                }
            }
        }
        let hit = m.routes.iter().rev().find(|r| (0..3).any(|x| doc(x) == r.id && mats.get(&x).is_some_and(|s| s >> i & 1 == 1)));
        if let Some(r) = hit {
            return Some((dir(d), r.id.to_string()));
        }
    }
    None
}
