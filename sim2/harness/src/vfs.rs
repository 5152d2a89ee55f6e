//! One virtual file system that is revised while its snapshots are read.
use crate::core::*;
use crate::root;
use crate::probes::{hit, P};
use crate::util::*;
use serde_json::{json, Value};
use simrt::sched::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tinymist_std::ImmutPath;
use tinymist_vfs::system::SystemAccessModel;
use tinymist_vfs::{FileChangeSet, FileSnapshot, FilesystemEvent, PathResolution, RevisingVfs, RootResolver, TypstFileId, Vfs, WorkspaceResolver};
use typst::diag::{FileError, FileResult};
use typst::foundations::Bytes;
use typst::syntax::package::PackageSpec;
use typst::syntax::VirtualPath;

pub const NID: usize = 9;
type V = Vfs<SystemAccessModel>;

/// Resolves packages below a root that can be moved.
struct Resolver;
static PKG: Racy<usize> = Racy(std::cell::UnsafeCell::new(0));
impl RootResolver for Resolver {
    fn resolve_package_root(&self, _: &PackageSpec) -> FileResult<ImmutPath> {
        Ok(root().join(format!("pk{}", *PKG.get())).into())
    }
}
fn id(n: usize) -> TypstFileId {
    let a: ImmutPath = root().join("w").into();
    let b: ImmutPath = root().join("w/s").into();
    let ws = |r: &ImmutPath, p: &str| WorkspaceResolver::workspace_file(Some(r), VirtualPath::new(p));
    match n {
        0 => ws(&a, "a.typ"),
        1 => ws(&a, "s/b.typ"),
        2 => ws(&b, "b.typ"), // the same file again
        3 => TypstFileId::new(Some("@preview/p:0.1.0".parse().unwrap()), VirtualPath::new("lib.typ")),
        4 => WorkspaceResolver::rootless_file(VirtualPath::new("m.typ")),
        5 => WorkspaceResolver::rooted_untitled(Some(&a), VirtualPath::new("u.typ")),
        6 => ws(&a, "missing.typ"),
        7 => ws(&a, "s/c.typ"),
        _ => ws(&b, "c.typ"),
    }
}
/// Where the file lies, if it has a place in the file system.
fn place(n: usize, pkg: usize) -> Option<usize> {
    match n {
        0 => Some(0),
        1 | 2 => Some(1),
        3 => Some(2 + pkg),
        6 => Some(4),
        7 | 8 => Some(5),
        _ => None,
    }
}
const PLACES: [&str; 6] = ["w/a.typ", "w/s/b.typ", "pk0/lib.typ", "pk1/lib.typ", "w/missing.typ", "w/s/c.typ"];
fn path(p: usize) -> PathBuf {
    root().join(PLACES[p])
}

/// What a read gives: the bytes, or the kind of error.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Exp {
    Ok(Vec<u8>),
    NotFound,
    Denied,
    Other,
}
fn seen(r: &FileResult<Bytes>) -> Exp {
    match r {
        Ok(b) => Exp::Ok(b.as_slice().to_vec()),
        Err(FileError::NotFound(_)) => Exp::NotFound,
        Err(FileError::AccessDenied) => Exp::Denied,
        Err(_) => Exp::Other,
    }
}
/// The contents number `c`, of which some come back, some are empty, marked
/// with a byte order mark or no text at all.
pub fn body(c: u64) -> Exp {
    Exp::Ok(match c % 12 {
        0 => vec![],
        1 => [b"\xef\xbb\xbf".as_slice(), format!("bom {c}").as_bytes()].concat(),
        2 => vec![0xff, 0xfe, (c & 0xff) as u8],
        3 => b"common text".to_vec(),
        4 => b"\xef\xbb\xbfcommon text".to_vec(),
        5 => return Exp::NotFound,
        _ => format!("text {c} {}", "x".repeat((c % 40) as usize)).into_bytes(),
    })
}
fn snap_of(e: &Exp, p: &Path) -> FileSnapshot {
    match e {
        Exp::Ok(b) => Ok(Bytes::new(b.clone())).into(),
        _ => Err(FileError::NotFound(p.to_owned())).into(),
    }
}
fn lossy(e: &Exp) -> String {
    match e {
        Exp::Ok(b) => format!("{:?}", String::from_utf8_lossy(b)),
        e => format!("{e:?}"),
    }
}

/// The reference model of one view.
#[derive(Clone, Default)]
struct Model {
    by_id: BTreeMap<usize, Exp>,
    by_path: BTreeMap<usize, Exp>,
    notified: BTreeMap<usize, Exp>,
    pkg: usize,
    /// the oldest version on disk that a file may show
    since: [usize; NID],
}
enum Want {
    Is(Exp),
    Disk(usize, usize),
}
impl Model {
    fn want(&self, n: usize) -> Want {
        if let Some(e) = self.by_id.get(&n) {
            return Want::Is(e.clone());
        }
        let Some(p) = place(n, self.pkg) else { return Want::Is(Exp::Denied) };
        if let Some(e) = self.by_path.get(&p).or_else(|| self.notified.get(&p)) {
            return Want::Is(e.clone());
        }
        Want::Disk(p, self.since[n])
    }
    /// Files at `p` must be read anew.
    fn touch(&mut self, p: usize) {
        for n in 0..NID {
            if place(n, self.pkg) == Some(p) {
                self.since[n] = disk()[p].len() - 1;
            }
        }
    }
    fn touch_all(&mut self) {
        for p in 0..PLACES.len() {
            self.touch(p);
        }
    }
    /// May a read of `n` give `got`?
    fn allows(&self, n: usize, got: &Exp) -> bool {
        match self.want(n) {
            Want::Is(e) => e == *got,
            Want::Disk(p, s) => disk()[p][s..].contains(got) || *got == Exp::Other && simrt::fired(&[F_EIO_R, F_OPEN, F_META]) > 0,
        }
    }
    fn show(&self, n: usize) -> String {
        match self.want(n) {
            Want::Is(e) => lossy(&e),
            Want::Disk(p, s) => format!("one of {:?} (on disk)", disk()[p][s..].iter().map(lossy).collect::<Vec<_>>()),
        }
    }
}
struct View {
    vfs: V,
    model: Model,
    /// what the first read of each file gave
    first: [Option<Exp>; NID],
    /// of the history of the main view
    main: bool,
    no: usize,
    evictions: usize,
}
#[derive(Default)]
struct State {
    views: Vec<View>,
    disk: Vec<Vec<Exp>>,
    moved: usize,
    evictions: usize,
}
static S: Racy<Option<State>> = Racy(std::cell::UnsafeCell::new(None));
fn st() -> &'static mut State {
    S.get().as_mut().unwrap()
}
fn disk() -> &'static mut Vec<Vec<Exp>> {
    &mut st().disk
}

pub fn gen_vfs(r: &mut Rng, e: &Env) -> Value {
    let nt = r.range(1, 4);
    let mut ops = vec![];
    let mut c = 100 + r.below(50) as u64;
    let focus = r.below(NID);
    let n = r.range(6, if e.thorough { 60 } else { 30 });
    for _ in 0..n {
        c += 1 + r.below(3) as u64;
        let n = if r.chance(50) { focus } else { r.below(NID) };
        let p = place(n, r.below(2)).unwrap_or(0);
        if r.chance(45) {
            let k = *r.weighted(&[(4, "shadow"), (3, "unshadow"), (3, "shadow_id"), (2, "unshadow_id"), (6, "notify"), (3, "unnotify"),
                (1, "reset_shadow"), (1, "reset_cache"), (1, "move"), (1, "evict"), (1, "take"), (2, "disk"), (2, "derive"), (1, "fork"),
                (2, "clean"), (1, "nothing")]);
            let mut op = json!({"t": 0, "k": k, "n": n, "p": p, "c": c, "p2": r.below(PLACES.len()), "two": r.chance(25), "x": r.below(5), "wait": r.below(3),
                "publish": r.chance(85)});
            if r.chance(20) {
                let k = *r.weighted(&[(3, "shadow"), (2, "unshadow"), (2, "shadow_id"), (2, "unshadow_id"), (4, "notify"), (3, "unnotify"), (1, "reset_shadow"), (1, "move")]);
                let n = if r.chance(50) { n } else { r.below(NID) };
                let p = place(n, r.below(2)).unwrap_or(0);
                op["also"] = json!([{"k": k, "n": n, "p": p, "c": c + 40, "p2": r.below(PLACES.len()), "two": r.chance(25), "x": r.below(5)}]);
            }
            ops.push(op);
        } else {
            ops.push(json!({"t": r.below(nt) + 1, "k": if r.chance(45) { "source" } else { "read" }, "n": n, "back": *r.weighted(&[(6, 0), (2, 1), (1, 2), (1, 5)]),
                "wait": r.below(4)}));
        }
    }
    let mut rates = serde_json::Map::new();
    set_rate(&mut rates, r, 30, "short_read", &[100, 500]);
    set_rate(&mut rates, r, 20, "read_eintr", &[100, 300]);
    set_rate(&mut rates, r, 10, "read_error", &[50]);
    set_rate(&mut rates, r, 30, "spurious_futex_wake", &[100]);
    json!({"threads": nt, "ops": ops, "rates": rates})
}

fn write_disk(p: usize, e: &Exp) {
    let f = path(p);
    match e {
        Exp::Ok(b) => {
            let t = root().join("new");
            let _ = simrt::quiet(|| std::fs::write(&t, b).and_then(|_| std::fs::rename(&t, &f)));
        }
        _ => {
            let _ = simrt::quiet(|| std::fs::remove_file(&f));
        }
    }
    disk()[p].push(e.clone());
}

pub fn run_vfs(cfg: &Value) {
    hook(&["V01"]);
    *S.get() = Some(State::default());
    *PKG.get() = 0;
    simrt::quiet(|| {
        for d in ["w/s", "pk0", "pk1"] {
            std::fs::create_dir_all(root().join(d)).unwrap();
        }
    });
    for p in 0..PLACES.len() {
        disk().push(vec![]);
        write_disk(p, &if p == 4 { Exp::NotFound } else { Exp::Ok(format!("disk {p}").into_bytes()) });
    }
    let mut main = V::new(Arc::new(Resolver), SystemAccessModel);
    let mut model = Model::default();
    publish(&main, &model, true);
    let cfg = Arc::new(cfg.clone());
    let hs: Vec<_> = (1..=cfg["threads"].as_u64().unwrap())
        .map(|t| {
            let cfg = cfg.clone();
            std::thread::spawn(move || {
                for op in cfg["ops"].as_array().unwrap() {
                    if op["t"] == t {
                        reader(op);
                    }
                }
            })
        })
        .collect();
    for op in cfg["ops"].as_array().unwrap() {
        if op["t"] == 0 {
            owner(op, &mut main, &mut model);
        }
    }
    for h in hs {
        let _ = h.join();
    }
    // everything comes to rest: the last state is what all files show
    publish(&main, &model, true);
    let last = st().views.len() - 1;
    for n in 0..NID {
        check(last, n, n % 2 == 0);
        check(last, n, n % 2 == 1);
    }
}
fn say(m: std::fmt::Arguments) {
    if simrt::shm::shm().trace != 0 {
        simrt::trace_msg(&simrt::quiet(|| m.to_string()));
    }
}
fn publish(vfs: &V, model: &Model, main: bool) {
    let vfs = vfs.snapshot();
    let s = st();
    let no = s.views.len();
    say(format_args!("view {no} at revision {}", vfs.revision()));
    s.views.push(View { vfs, model: model.clone(), first: Default::default(), main, no, evictions: s.evictions });
}
fn reader(op: &Value) {
    pause(op["wait"].as_u64().unwrap());
    let n = op["n"].as_u64().unwrap() as usize;
    let last = st().views.len() - 1;
    let back = op["back"].as_u64().unwrap() as usize;
    if back > 0 && last > 0 {
        hit(P::old_snapshot_reads);
    }
    check(last.saturating_sub(back), n, op["k"] == "source");
}
/// Reads file `n` of view `v` and judges what comes out.
fn check(v: usize, n: usize, source: bool) {
    // views are never removed, but the list may move
    say(format_args!("reads file {n} of view {v}"));
    let vfs = st().views[v].vfs.snapshot();
    let fid = id(n);
    let what;
    let got = if source {
        let s = vfs.source(fid);
        hit(P::sources_checked);
        what = "source";
        match &s {
            Ok(s) => {
                if s.id() != fid {
                    viol(&["V01"], "source-id", &format!("the source of file {n} carries the id of another file"));
                }
                Some(Exp::Ok(s.text().as_bytes().to_vec()))
            }
            Err(FileError::InvalidUtf8) => None,
            Err(e) => Some(seen(&Err(e.clone()))),
        }
    } else {
        what = "read";
        Some(seen(&vfs.read(fid)))
    };
    hit(P::reads_checked);
    say(format_args!("has read file {n} of view {v}: {}", got.as_ref().map_or("an encoding error".to_string(), lossy)));
    let s = st();
    if n == 3 && v < s.moved {
        return;
    }
    let view = &mut s.views[v];
    match view.model.want(n) {
        Want::Disk(..) => hit(P::disk_reads),
        Want::Is(_) if view.model.by_id.contains_key(&n) || place(n, view.model.pkg).is_some_and(|p| view.model.by_path.contains_key(&p)) => {
            hit(P::overlay_reads)
        }
        _ => hit(P::notified_reads),
    }
    // a source is the text without the mark, or an error if it is no text
    let raw: Vec<Exp> = if source {
        let mut c: Vec<Exp> = match view.model.want(n) {
            Want::Is(e) => vec![e],
            Want::Disk(p, s0) => s.disk[p][s0..].to_vec(),
        };
        c.retain(|e| match (e, &got) {
            (Exp::Ok(b), g) => {
                let b = b.strip_prefix(b"\xef\xbb\xbf").unwrap_or(b);
                match std::str::from_utf8(b) {
                    Ok(t) => *g == Some(Exp::Ok(t.as_bytes().to_vec())),
                    Err(_) => g.is_none(),
                }
            }
            (e, g) => Some(e.clone()) == *g,
        });
        c
    } else {
        vec![got.clone().unwrap()]
    };
    let err_ok = got == Some(Exp::Other) && simrt::fired(&[F_EIO_R, F_OPEN, F_META]) > 0;
    if err_ok {
        if matches!(view.model.want(n), Want::Is(_)) {
            viol(&["V01"], "content", &format!("{what} of file {n} in view {v} fails although it is in memory"));
        }
        return;
    }
    let ok = raw.iter().any(|e| view.model.allows(n, e));
    if !ok {
        let g = got.as_ref().map_or("an encoding error".to_string(), lossy);
        viol(&["V01"], "content", &format!("{what} of file {n} in view {v} (of {}) gives {g}, but it holds {}", s.views.len(), s.views[v].model.show(n)));
        return;
    }
    if raw.len() == 1 {
        let disk_src = matches!(view.model.want(n), Want::Disk(p, s0) if s.disk[p].len() > s0 + 1);
        match &view.first[n] {
            Some(f) if *f != raw[0] && !(disk_src && s.evictions > view.evictions) => viol(
                &["V01"],
                "unstable",
                &format!("file {n} of view {v} was {} when first read and is {} now", lossy(f), lossy(&raw[0])),
            ),
            Some(_) => {}
            None => view.first[n] = Some(raw[0].clone()),
        }
    }
}
fn owner(op: &Value, main: &mut V, model: &mut Model) {
    pause(op["wait"].as_u64().unwrap());
    let n = op["n"].as_u64().unwrap() as usize;
    let p = op["p"].as_u64().unwrap() as usize;
    let c = op["c"].as_u64().unwrap();
    let x = op["x"].as_u64().unwrap() as usize;
    let e = body(c);
    let k = op["k"].as_str().unwrap();
    match k {
        "disk" => {
            write_disk(p, &e);
            return;
        }
        "derive" | "fork" => {
            // a view of its own, as for a compilation with other contents
            let mut m = model.clone();
            let mut v = if k == "fork" { main.fork() } else { main.snapshot() };
            if k == "fork" {
                hit(P::forked_views);
                m.touch_all();
            } else {
                hit(P::derived_views);
            }
            if x > 0 {
                m.by_id.insert(n, e.clone());
                let mut r = v.revise();
                let _ = r.map_shadow_by_id(id(n), snap_of(&e, &path(p)));
                drop(r);
            }
            publish(&v, &m, false);
            return;
        }
        "clean" => {
            // an earlier view: is what was read from it still what there is?
            let last = st().views.len() - 1;
            let v = &st().views[last.saturating_sub(x)];
            if !v.main || st().evictions > v.evictions {
                return;
            }
            let ns: Vec<usize> = (0..NID).filter(|n| v.first[*n].is_some()).collect();
            let ids: Vec<_> = ns.iter().map(|n| id(*n)).collect();
            let (no, rev) = (v.no, v.vfs.revision().get());
            if main.is_clean_compile(rev, &ids) {
                hit(P::clean_answers);
                for n in ns {
                    let f = st().views[no].first[n].clone().unwrap();
                    if !model.allows(n, &f) {
                        viol(
                            &["V01"],
                            "clean",
                            &format!("file {n} is reported unchanged since view {no}, where it was {}, but it holds {}", lossy(&f), model.show(n)),
                        );
                    }
                }
            } else {
                hit(P::dirty_answers);
            }
            return;
        }
        "evict" => {
            main.evict(x);
            st().evictions += 1;
            hit(P::cache_evicted);
            return;
        }
        "take" => {
            main.take_source_cache();
            return;
        }
        _ => {}
    }
    let mut r = main.revise();
    apply(op, &mut r, model);
    for o in op["also"].as_array().into_iter().flatten() {
        apply(o, &mut r, model);
    }
    drop(r);
    // several changes may be made before the next view
    if op["publish"] == true {
        publish(main, model, true);
        let (mut a, mut b) = (main.shadow_paths(), model.by_path.keys().map(|p| ImmutPath::from(path(*p))).collect::<Vec<_>>());
        a.sort();
        b.sort();
        if a != b {
            viol(&["V01"], "shadows", &format!("the shadowed paths are {a:?}, not {b:?}"));
        }
        let (mut a, mut b) = (main.shadow_ids(), model.by_id.keys().map(|n| id(*n)).collect::<Vec<_>>());
        a.sort();
        b.sort();
        if a != b {
            viol(&["V01"], "shadows", "the shadowed file ids differ from those that were mapped");
        }
        if let Some(p) = place(n, model.pkg) {
            match main.file_path(id(n)) {
                Ok(PathResolution::Resolved(q)) if q == path(p) => {}
                r => viol(&["V01"], "place", &format!("file {n} resolves to {r:?}")),
            }
        }
    }
}
fn apply(op: &Value, r: &mut RevisingVfs<SystemAccessModel>, model: &mut Model) {
    let n = op["n"].as_u64().unwrap() as usize;
    let p = op["p"].as_u64().unwrap() as usize;
    let p2 = op["p2"].as_u64().unwrap() as usize;
    let c = op["c"].as_u64().unwrap();
    let x = op["x"].as_u64().unwrap() as usize;
    let e = body(c);
    let k = op["k"].as_str().unwrap();
    let f = path(p);
    say(format_args!("change {op}"));
    match k {
        "shadow" => {
            let _ = r.map_shadow(&f, snap_of(&e, &f));
            model.by_path.insert(p, e);
            model.touch(p);
        }
        "unshadow" => {
            let _ = r.unmap_shadow(&f);
            model.by_path.remove(&p);
            model.touch(p);
        }
        "shadow_id" => {
            let _ = r.map_shadow_by_id(id(n), snap_of(&e, &f));
            model.by_id.insert(n, e);
        }
        "unshadow_id" => {
            r.remove_shadow_by_id(id(n));
            model.by_id.remove(&n);
            if let Some(p) = place(n, model.pkg) {
                model.since[n] = disk()[p].len() - 1;
            }
        }
        "notify" | "unnotify" => {
            let mut set = FileChangeSet::default();
            // removals come first
            let mut gone = vec![];
            let mut new = vec![];
            if k == "notify" {
                new.push((p, e));
                if op["two"] == true {
                    new.push((p2, body(c * 7 + 1)));
                }
            } else {
                gone.push(p);
                if op["two"] == true {
                    new.push((p2, e));
                }
            }
            if x == 0 {
                // of a file that is notified in the same event
                gone.push(new.first().map_or(p, |n| n.0));
            }
            for p in gone {
                set.removes.push(path(p).into());
                model.notified.remove(&p);
                model.touch(p);
            }
            for (p, e) in new {
                set.inserts.push((path(p).into(), snap_of(&e, &path(p))));
                model.notified.insert(p, e);
                model.touch(p);
            }
            if x == 1 {
                r.notify_fs_event(FilesystemEvent::UpstreamUpdate { changeset: set, upstream_event: None });
            } else if x == 2 {
                r.notify_fs_event(FilesystemEvent::Update(set));
            } else {
                r.notify_fs_changes(set);
            }
        }
        "reset_shadow" => {
            r.reset_shadow();
            for p in std::mem::take(&mut model.by_path).keys() {
                model.touch(*p);
            }
            for n in std::mem::take(&mut model.by_id).keys() {
                if let Some(p) = place(*n, model.pkg) {
                    model.since[*n] = disk()[p].len() - 1;
                }
            }
        }
        "reset_cache" => {
            r.reset_cache();
            model.touch_all();
        }
        "move" => {
            // packages come from elsewhere from now on; what older views
            // have not read yet, they resolve anew
            st().moved = st().views.len();
            *PKG.get() = x % 2;
            r.reset_cache();
            model.pkg = x % 2;
            model.touch_all();
            hit(P::package_moved);
        }
        _ => {}
    }
}
