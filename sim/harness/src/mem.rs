//! In-memory sharing of tinymist-std (queries, fingerprints) and tinymist-l10n
//! under every interleaving of the threads that use them.
use crate::core::*;
use crate::fs::{hook, pause, root, work};
use crate::probes::{hit, P};
use crate::world::Racy;
use serde_json::{json, Value};
use simrt::sched::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use tinymist_std::adt::FingerprintMap;
use tinymist_std::TakeAs;
use tinymist_std::hash::{Fingerprint, FingerprintBuilder};
use tinymist_std::QueryRef;

/// Runs the operations of `cfg` on `cfg.threads` threads of one process.
fn run_threads(cfg: &Value, f: fn(usize, &Value)) {
    let hs: Vec<_> = (0..cfg["threads"].as_u64().unwrap() as usize)
        .map(|t| {
            let cfg = cfg.clone();
            std::thread::spawn(move || {
                for op in cfg["ops"].as_array().unwrap() {
                    if op["t"] == t {
                        f(t, op);
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
}

// ---- queries that are computed once ------------------------------------------------

struct Val {
    n: u64,
    tag: String,
}
#[derive(Clone, Debug, PartialEq)]
struct Fail(u64);
#[derive(Default)]
struct QState {
    /// closures that have begun, and what the finished one returned
    begun: u64,
    done: Option<Result<u64, u64>>,
    panicked: bool,
    addr: usize,
    ctx_seen: u64,
}
struct Queries {
    q: Vec<QueryRef<Val, Fail, u64>>,
    st: Vec<QState>,
    plain: Vec<QueryRef<Val, Fail>>,
    arcs: Vec<Option<Arc<Vec<u64>>>>,
    weak: std::sync::Weak<Vec<u64>>,
}
static Q: Racy<Option<Queries>> = Racy(std::cell::UnsafeCell::new(None));

pub fn gen_query(r: &mut Rng, e: &Env) -> Value {
    let nt = r.range(2, 5);
    let nq = r.range(1, 4);
    let pre = r.chance(20);
    let mut ops = vec![];
    for i in 0..r.range(4, if e.thorough { 30 } else { 16 }) {
        let k = *r.weighted(&[(8, "compute"), (4, "get"), (2, "plain"), (2, "take"), (2, "weak")]);
        ops.push(json!({"t": r.below(nt), "k": k, "q": r.below(nq), "id": i + 1,
            "how": *r.weighted(&[(6, "ok"), (3, "err")]), "work": r.below(25), "pause": if r.chance(30) { r.below(30) } else { 0 }, "wait": r.below(4)}));
    }
    let mut rates = serde_json::Map::new();
    if r.chance(50) {
        rates.insert("spurious_futex_wake".into(), json!(200));
    }
    if r.chance(25) {
        rates.insert("task_panic".into(), json!(150));
    }
    json!({"threads": nt, "nq": nq, "pre": pre, "arcs": if r.chance(50) { 1 } else { 8 }, "ops": ops, "rates": rates})
}
pub fn run_query(cfg: &Value) {
    hook(&["S05"]);
    let nq = cfg["nq"].as_u64().unwrap() as usize;
    let mut qs = Queries { q: vec![], st: vec![], plain: vec![], arcs: vec![], weak: Default::default() };
    for i in 0..nq {
        let pre = cfg["pre"] == true && i == 0;
        qs.q.push(if pre { QueryRef::with_value(Val { n: 900, tag: "900".into() }) } else { QueryRef::with_context(500 + i as u64) });
        qs.st.push(QState { done: pre.then_some(Ok(900)), begun: pre as u64, ..Default::default() });
        qs.plain.push(QueryRef::default());
    }
    let a = Arc::new(vec![7u64; 33]);
    qs.weak = Arc::downgrade(&a);
    for _ in 0..cfg["arcs"].as_u64().unwrap_or(8) {
        qs.arcs.push(Some(a.clone()));
    }
    drop(a);
    *Q.get() = Some(qs);
    run_threads(cfg, query_op);
    let q = Q.get().as_mut().unwrap();
    for (i, st) in q.st.iter().enumerate() {
        let got = q.q[i].get_uninitialized().map(|r| r.as_ref().map(|v| v.n).map_err(|e| e.0));
        if got != st.done {
            viol(&["S05"], "final", &format!("query {i} ends with {got:?}, but its computation returned {:?}", st.done));
        }
    }
}
struct Planned;
fn query_op(_: usize, op: &Value) {
    let q = Q.get().as_mut().unwrap();
    let i = op["q"].as_u64().unwrap() as usize;
    let id = op["id"].as_u64().unwrap();
    pause(op["wait"].as_u64().unwrap());
    let ok = op["how"] == "ok";
    let body = |ctx: u64| -> Result<Val, Fail> {
        let st = &mut Q.get().as_mut().unwrap().st[i];
        st.begun += 1;
        st.ctx_seen += 1;
        if st.begun > 1 {
            viol(&["S05"], "twice", &format!("query {i} is computed a second time"));
        }
        if ctx != 500 + i as u64 {
            viol(&["S05"], "context", &format!("query {i} is computed with the context {ctx}"));
        }
        work(op["work"].as_u64().unwrap());
        pause(op["pause"].as_u64().unwrap());
        if simrt::fault(F_PANIC, 2) != 0 {
            st.panicked = true;
            crate::fs::MAY_PANIC.store(true, std::sync::atomic::Ordering::Relaxed);
            hit(P::query_panicked);
            std::panic::resume_unwind(Box::new(Planned));
        }
        let r = if ok { Ok(id) } else { Err(id) };
        st.done = Some(r);
        hit(if ok { P::query_computed } else { P::query_failed });
        r.map(|n| Val { n, tag: n.to_string() }).map_err(Fail)
    };
    match op["k"].as_str().unwrap() {
        "compute" => {
            let st = &q.st[i];
            if st.begun > 0 && st.done.is_none() {
                hit(P::query_raced);
            }
            if st.panicked {
                return; // the query has lost its context
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| q.q[i].compute_with_context(body)));
            let st = &mut Q.get().as_mut().unwrap().st[i];
            let r = match r {
                Ok(r) => r,
                Err(_) => {
                    if !st.panicked {
                        viol(&["S05"], "panic", "computing a query panicked");
                    }
                    return;
                }
            };
            let got = r.as_ref().map(|v| v.n).map_err(|e| e.0);
            if Some(got) != st.done {
                viol(&["S05"], "result", &format!("computing query {i} returned {got:?}, but its computation returned {:?}", st.done));
            }
            if let Ok(v) = r {
                if v.tag != v.n.to_string() {
                    viol(&["S05"], "result", "a query result is not the value that was computed");
                }
                let a = v as *const Val as usize;
                if st.addr != 0 && st.addr != a {
                    viol(&["S05"], "moved", &format!("two callers got different copies of the result of query {i}"));
                }
                st.addr = a;
            }
            if q.q[i].get_uninitialized().is_none() {
                viol(&["S05"], "unset", &format!("query {i} is not initialised after it was computed"));
            }
        }
        "get" => {
            // never blocks: no other thread runs for its sake
            let me = &simrt::shm::shm().threads[simrt::sched::tid() as usize];
            let b0 = me.bseq;
            let before = q.st[i].done;
            let got = q.q[i].get_uninitialized().map(|r| r.as_ref().map(|v| v.n).map_err(|e| e.0));
            if me.bseq != b0 {
                viol(&["S05"], "blocked", "get_uninitialized waited for another thread");
            }
            let after = Q.get().as_ref().unwrap().st[i].done;
            let _ = before;
            if let Some(g) = got {
                if Some(g) != after {
                    viol(&["S05"], "early", &format!("get_uninitialized of query {i} returned {g:?}, its computation {after:?}"));
                }
            } else if q.st[i].addr != 0 {
                viol(&["S05"], "unset", &format!("query {i} is not initialised after it was computed"));
            }
        }
        "plain" => {
            // The same through `compute`: all callers agree.
            let r = q.plain[i].compute(|| {
                work(op["work"].as_u64().unwrap());
                if ok { Ok(Val { n: id, tag: id.to_string() }) } else { Err(Fail(id)) }
            });
            let got = r.as_ref().map(|v| v.n).map_err(|e| e.0);
            let again = q.plain[i].compute(|| Ok(Val { n: 0, tag: String::new() })).map(|v| v.n).map_err(|e| e.0);
            if got != again || again == Ok(0) {
                viol(&["S05"], "result", &format!("two computations of one query returned {got:?} and {again:?}"));
            }
        }
        "weak" => {
            // Others look at the value, and let go of it, at any time.
            if let Some(a) = q.weak.upgrade() {
                work(op["work"].as_u64().unwrap() % 5);
                if *a != vec![7u64; 33] {
                    viol(&["S05"], "take", &format!("a shared value became {a:?}"));
                }
            }
        }
        _ => {
            // Taking a shared value neither loses nor spoils it.
            let n = q.arcs.iter().position(|a| a.is_some());
            if let Some(a) = n.and_then(|n| q.arcs[n].take()) {
                hit(P::take_raced);
                let v: Vec<u64> = TakeAs::take(a);
                if v != vec![7u64; 33] {
                    viol(&["S05"], "take", &format!("taking a shared value gave {v:?}"));
                }
            }
        }
    }
}

// ---- fingerprints ----------------------------------------------------------------------

struct Maps {
    m: FingerprintMap<(u64, u64)>,
    b: FingerprintBuilder,
    /// what has been put in, per fingerprint: the owner's value
    put: BTreeMap<u128, (u64, u64)>,
    fps: BTreeMap<String, u128>,
    rev: BTreeMap<u128, String>,
}
static M: Racy<Option<Maps>> = Racy(std::cell::UnsafeCell::new(None));

/// A number with many zero bytes.
fn sparse(r: &mut Rng) -> u64 {
    let full = r.chance(30);
    (0..8).fold(0, |x, _| {
        let b = match r.below(8) {
            0..=3 if !full => 0,
            4 => 0xff,
            5 => 1,
            _ => r.next() & 0xff,
        };
        x << 8 | b
    })
}
pub fn gen_maps(r: &mut Rng, e: &Env) -> Value {
    let nt = r.range(2, 5);
    let nk = r.range(1, 12) as u64;
    let mut ops = vec![];
    if r.chance(8) {
        // a map with many entries
        for i in 0..r.range(100, 600) {
            ops.push(json!({"t": r.below(nt), "k": "entry", "key": i, "id": 1000 + i, "ty": 0, "wait": 0}));
        }
    }
    for i in 0..r.range(5, if e.thorough { 50 } else { 25 }) {
        let k = *r.weighted(&[(6, "entry"), (3, "has"), (5, "resolve"), (3, "text"), (1, "evict")]);
        let mut op = json!({"t": r.below(nt), "k": k, "key": r.next() % nk, "id": i + 1, "ty": r.below(8), "wait": r.below(3)});
        if k == "text" && r.chance(80) {
            op["fp"] = json!([sparse(r), sparse(r)]);
        }
        ops.push(op);
    }
    json!({"threads": nt, "ops": ops, "shards": *r.pick(&[1u64, 2, 3, 16, 512, 513, 100000]), "rates": {"spurious_futex_wake": if r.chance(50) { 100 } else { 0 }}})
}
#[derive(Hash)]
struct Named {
    a: u64,
    b: u64,
}
/// Fingerprints that share shards and differ in single bits.
fn fp(k: u64) -> Fingerprint {
    let mut x = k / 3;
    let (lo, hi) = (splitmix(&mut x), splitmix(&mut x));
    match k % 3 {
        0 if k % 2 == 1 => Fingerprint::from_pair(lo >> 32 << 32, hi),
        0 => Fingerprint::from_pair(lo, hi),
        1 => Fingerprint::from_pair(lo, 0),
        _ => Fingerprint::from_pair(lo ^ 1 << 40, hi >> (8 * (k % 7))),
    }
}
pub fn run_maps(cfg: &Value) {
    hook(&["S06"]);
    let sh = cfg["shards"].as_u64().unwrap() as u32;
    *M.get() = Some(Maps {
        m: if sh == 3 { FingerprintMap::default() } else { FingerprintMap::new(sh.try_into().unwrap()) },
        b: FingerprintBuilder::default(),
        put: Default::default(),
        fps: Default::default(),
        rev: Default::default(),
    });
    run_threads(cfg, map_op);
    let m = M.get().take().unwrap();
    let mut left = m.put;
    for (f, v) in m.m.into_items() {
        if left.remove(&f.to_u128()) != Some(v) {
            viol(&["S06"], "items", &format!("the map yields {f:?} = {v:?}, which is not (or no longer) in it"));
        }
    }
    if let Some((k, v)) = left.into_iter().next() {
        viol(&["S06"], "lost", &format!("entry {k:x} = {v:?} has vanished from the map"));
    }
}
fn map_op(t: usize, op: &Value) {
    let m = M.get().as_mut().unwrap();
    let key = op["key"].as_u64().unwrap();
    let id = op["id"].as_u64().unwrap();
    pause(op["wait"].as_u64().unwrap());
    let f = fp(key);
    match op["k"].as_str().unwrap() {
        "entry" => {
            // insert once, or count up under the shard's lock
            let mut g = m.m.shard(f).write();
            work(3);
            let v = g.entry(f).or_insert((id, 0));
            let mut n = *v;
            work(3);
            n.1 += 1;
            *v = n;
            hit(if n.1 == 1 { P::fmap_inserted } else { P::fmap_raced });
            let o = m.put.entry(f.to_u128()).or_insert((id, 0));
            o.1 += 1;
            if *o != n {
                viol(&["S06"], "entry", &format!("thread {t} finds {n:?} in the map, which should hold {o:?}"));
            }
            drop(g);
            if !m.m.contains_key(&f) {
                viol(&["S06"], "missing", &format!("{f:?} is not in the map after it was inserted"));
            }
        }
        "has" => {
            let before = m.put.contains_key(&f.to_u128());
            let has = m.m.contains_key(&f);
            let after = M.get().as_ref().unwrap().put.contains_key(&f.to_u128());
            if before && !has || has && !after {
                viol(&["S06"], "contains", &format!("contains_key says {has} for an entry that is there: {before} (before), {after} (after)"));
            }
        }
        "resolve" => {
            let (s, a, b) = match op["ty"].as_u64().unwrap() {
                0 => (format!("u64 {key}"), m.b.resolve(&key), m.b.resolve(&key)),
                1 => (format!("str {key}"), m.b.resolve(&key.to_string()), m.b.resolve(&key.to_string())),
                // values of different types that look the same in memory
                3 => (format!("pair {key}"), m.b.resolve(&(key, 0u64)), m.b.resolve(&(key, 0u64))),
                4 => (format!("wide {key}"), m.b.resolve(&(key as u128)), m.b.resolve(&(key as u128))),
                5 => (format!("named {key}"), m.b.resolve(&Named { a: key, b: 0 }), m.b.resolve(&Named { a: key, b: 0 })),
                // long values that differ in one place
                6 => {
                    let mut v = vec![0u8; 3000];
                    v[(key * 271 % 3000) as usize] = 1;
                    (format!("long {key}"), m.b.resolve(&v), m.b.resolve(&v))
                }
                7 => {
                    let v: Vec<u8> = vec![0; key as usize];
                    (format!("zeros {key}"), m.b.resolve(&v), m.b.resolve(&v))
                }
                _ => (format!("i64 {key}"), m.b.resolve(&(key as i64)), m.b.resolve(&(key as i64))),
            };
            hit(P::fp_resolved);
            if a != b {
                viol(&["S06"], "unstable", &format!("{s} resolves to {a:?} and to {b:?}"));
            }
            let a = a.to_u128();
            let x = *m.fps.entry(s.clone()).or_insert(a);
            if x != a {
                viol(&["S06"], "unstable", &format!("{s} resolves to {x:x} and to {a:x}"));
            }
            let y = m.rev.entry(a).or_insert(s.clone()).clone();
            if y != s {
                viol(&["S06"], "conflict", &format!("{s} and {y} resolve to the same fingerprint"));
            }
        }
        "text" => {
            let f = match op["fp"].as_array() {
                Some(v) => Fingerprint::from_pair(v[0].as_u64().unwrap(), v[1].as_u64().unwrap()),
                None => f,
            };
            let s = f.as_svg_id("");
            let p = f.as_svg_id("g");
            if Fingerprint::try_from_str(&s).ok() != Some(f) || p != format!("g{s}") {
                viol(&["S06"], "text", &format!("{:x} is written as {s} and {p}, which does not read back", f.to_u128()));
            }
            if Fingerprint::from_u128(f.to_u128()) != f {
                viol(&["S06"], "text", "a fingerprint does not survive the conversion to u128");
            }
            let j = serde_json::to_string(&f).unwrap();
            if serde_json::from_str::<Fingerprint>(&j).ok() != Some(f) {
                viol(&["S06"], "text", &format!("{j} does not read back"));
            }
        }
        _ => comemo::evict(0),
    }
}

// ---- localisation ---------------------------------------------------------------------------

#[derive(Default)]
struct Loc {
    /// switches: (start, end, table or None if refused)
    sw: Vec<(u64, u64, usize)>,
    clock: u64,
}
static L: Racy<Option<Loc>> = Racy(std::cell::UnsafeCell::new(None));
const LANGS: [&str; 5] = ["en", "zh", "zh-tw", "fr", "pt-br"];
const KEYS: [&str; 9] = ["a.greet", "a.file", "b.both", "b.esc", "c.none", "c.brace", "D.Pre Fix", "e.empty", "a"];
const MSGS: [&str; 9] =
    ["hello", "cannot open {name}: {err}!", "{a}{b} and {a}.", "tab\there \"quoted\"", "untranslated {x} stays", "odd {unknown} and {",
    "{na}{name}{names}{ na }{Na}=x # {} {nam", "[x] = \"original\" # no", "\u{1f600}{a}\u{1f600}"];
fn msg(lang: usize, key: usize) -> Option<String> {
    // not every message is translated into every language
    if KEYS[key] == "c.none" || (lang == 3 && key == 1) {
        return None;
    }
    Some(match lang {
        0 => MSGS[key].to_string(),
        1 if key == 7 => String::new(),
        l => format!("\u{ab}{}\u{bb} {} \u{4f60}", LANGS[l], MSGS[key]),
    })
}
/// Which table a locale selects.
fn select(loc: &str) -> Option<usize> {
    let l = loc.to_lowercase();
    if let Some(i) = LANGS.iter().position(|x| *x == l) {
        return Some(i);
    }
    LANGS.iter().position(|x| l.starts_with(&format!("{x}-")))
}
const LOCALES: [&str; 19] =
    ["pt-BR-abl1990", "zh-", "zh_CN", "zh\u{e9}-x", "fr-\u{e9}", "en", "EN", "zh", "zh-CN", "zh-TW", "Zh-Tw", "fr-FR", "fr", "pt-BR", "pt", "enx", "de", "", "en-US"];
/// What a message becomes: every known `{name}` is replaced, the rest is kept.
fn fill(m: &str, args: &[(&str, String)]) -> String {
    let mut o = String::new();
    let mut rest = m;
    while let Some(i) = rest.find('{') {
        o.push_str(&rest[..i]);
        rest = &rest[i..];
        let Some(j) = rest.find('}') else { break };
        match args.iter().find(|(k, _)| *k == &rest[1..j]) {
            Some((_, v)) => o.push_str(v),
            None => o.push_str(&rest[..=j]),
        }
        rest = &rest[j + 1..];
    }
    o + rest
}
fn toml(r: &mut Rng) -> String {
    let mut s = String::from("\n# comment [not.a.key]\n");
    let mut keys: Vec<usize> = (0..KEYS.len()).collect();
    for i in (1..keys.len()).rev() {
        keys.swap(i, r.below(i + 1));
    }
    for k in keys {
        s += &format!("\n[{}]\n", KEYS[k]);
        for l in 0..LANGS.len() {
            if let Some(m) = msg(l, k) {
                s += &format!("{}{} = {}\n", if r.chance(20) { "  " } else { "" }, LANGS[l], json!(m));
            }
        }
    }
    s
}
pub fn gen_l10n(r: &mut Rng, e: &Env) -> Value {
    let nt = r.range(2, 4);
    let mut ops = vec![];
    for i in 0..r.range(4, if e.thorough { 40 } else { 20 }) {
        let k = *r.weighted(&[(3, "set"), (6, "t"), (1, "again")]);
        ops.push(json!({"t": r.below(nt), "k": k, "loc": *r.pick(&LOCALES), "key": r.below(KEYS.len()), "id": i, "wait": r.below(3)}));
    }
    json!({"threads": nt, "ops": ops, "text": toml(r), "rates": {"spurious_futex_wake": if r.chance(50) { 100 } else { 0 }}})
}
pub fn run_l10n(cfg: &Value) {
    hook(&["S07"]);
    *L.get() = Some(Loc { sw: vec![(0, 0, usize::MAX)], clock: 1 });
    if tinymist_l10n::set_locale("en").is_some() {
        viol(&["S07"], "select", "a locale was selected before any translations were set");
    }
    match tinymist_l10n::load_translations(cfg["text"].as_str().unwrap()) {
        Ok(t) => {
            for l in 0..LANGS.len() {
                for k in 0..KEYS.len() {
                    let got = t.get(LANGS[l]).and_then(|m| m.get(KEYS[k])).cloned();
                    if got != msg(l, k) {
                        viol(&["S07"], "load", &format!("[{}] {} is loaded as {got:?} instead of {:?}", KEYS[k], LANGS[l], msg(l, k)));
                    }
                }
            }
            tinymist_l10n::set_translations(t);
        }
        Err(e) => viol(&["S07"], "load", &format!("loading translations failed: {e:#}")),
    }
    run_threads(cfg, l10n_op);
}
fn now() -> u64 {
    let l = L.get().as_mut().unwrap();
    l.clock += 1;
    l.clock
}
fn l10n_op(_: usize, op: &Value) {
    let loc = op["loc"].as_str().unwrap();
    let key = op["key"].as_u64().unwrap() as usize;
    let float = [1.5, 0.1 + 0.2, 1e-7, -0.0, 1e21, 100.0, 1234567.125, f64::NEG_INFINITY][op["loc"].as_str().unwrap().len() * 5 % 8];
    pause(op["wait"].as_u64().unwrap());
    match op["k"].as_str().unwrap() {
        "set" => {
            let want = select(loc);
            let i = L.get().as_ref().unwrap().sw.len();
            let s = now();
            if let Some(t) = want {
                L.get().as_mut().unwrap().sw.push((s, u64::MAX, t));
            }
            let r = tinymist_l10n::set_locale(loc);
            if r.is_some() != want.is_some() {
                viol(&["S07"], "select", &format!("set_locale({loc:?}) returned {r:?}"));
            }
            hit(P::locale_switch);
            if want.is_some() {
                L.get().as_mut().unwrap().sw[i].1 = now();
            }
        }
        "again" => tinymist_l10n::set_translations(Default::default()),
        _ => {
            let s = now();
            let got = match key {
                1 => tinymist_l10n::t!("a.file", "cannot open {name}: {err}!", name = "f\u{e9}.typ".into(), err = tinymist_l10n::Arg::Int(-5)),
                2 => tinymist_l10n::t!("b.both", "{a}{b} and {a}.", a = "{b}".into(), b = tinymist_l10n::Arg::Float(float)),
                5 => tinymist_l10n::t!("c.brace", "odd {unknown} and {", x = "y".into()),
                4 => tinymist_l10n::t!("c.none", "untranslated {x} stays", x = "y".into()),
                6 => tinymist_l10n::t!("D.Pre Fix", "{na}{name}{names}{ na }{Na}=x # {} {nam", name = "NAME".into(), na = tinymist_l10n::Arg::Int(i64::MIN)),
                7 => tinymist_l10n::t!("e.empty", "[x] = \"original\" # no"),
                8 => tinymist_l10n::t!("a", "\u{1f600}{a}\u{1f600}", a = (&String::from("\u{1f600}{a}")).into()),
                3 => tinymist_l10n::t!("b.esc", "tab\there \"quoted\""),
                _ => tinymist_l10n::t!("a.greet", "hello"),
            };
            let e = now();
            hit(P::locale_read);
            let args: Vec<(&str, String)> = match key {
                1 => vec![("name", "f\u{e9}.typ".into()), ("err", "-5".into())],
                2 => vec![("a", "{b}".into()), ("b", float.to_string())],
                6 => vec![("name", "NAME".into()), ("na", i64::MIN.to_string())],
                8 => vec![("a", "\u{1f600}{a}".into())],
                4 | 5 => vec![("x", "y".into())],
                _ => vec![],
            };
            let text = |t: usize| -> String {
                let m = if t == usize::MAX { None } else { msg(t, key) }.unwrap_or(MSGS[key].to_string());
                if args.is_empty() { m } else { fill(&m, &args) }
            };
            // the locales that may be current at some moment of the call
            let sw = &L.get().as_ref().unwrap().sw;
            let may: BTreeSet<usize> =
                sw.iter().filter(|x| x.0 < e && !sw.iter().any(|y| y.0 > x.1 && y.1 < s)).map(|x| x.2).collect();
            if !may.iter().any(|t| text(*t) == got) {
                let w: Vec<String> = may.iter().map(|t| text(*t)).collect();
                let f = (0..LANGS.len()).any(|t| text(t) == got) || text(usize::MAX) == got;
                viol(&["S07"], if f { "stale" } else { "text" }, &format!("the message {} reads {got:?} instead of {w:?}", KEYS[key]));
            }
        }
    }
}

// ---- the translation file ---------------------------------------------------------------------

pub fn gen_l10nfile(r: &mut Rng, e: &Env) -> Value {
    let mut ops = vec![];
    for _ in 0..r.range(1, if e.thorough { 8 } else { 4 }) {
        let keys: Vec<usize> = (0..KEYS.len() + MORE.len()).filter(|_| r.chance(60)).collect();
        ops.push(json!({"keys": keys, "v": r.below(3), "shuffle": r.next() % 1000}));
    }
    let mut rates = serde_json::Map::new();
    for (k, v) in [("read_error", 100), ("open_error", 150), ("disk_full", 150), ("short_write", 300), ("write_eintr", 200), ("read_eintr", 300), ("short_read", 400), ("rename_error", 200), ("write_error", 100), ("unlink_error", 200), ("name_collision", 200)] {
        if r.chance(30) {
            rates.insert(k.into(), json!(v));
        }
    }
    let mut text = toml(r);
    for k in MORE {
        if r.chance(50) {
            text += &format!("\n[{k}]\nen = {}\nfr = {}\nx-{} = \"{k}\"\n", json!(k), json!(format!("\u{ab}{k}\u{bb} = [x]")), r.below(9));
        }
    }
    let mut text = text.into_bytes();
    let bad = *r.weighted(&[(8, ""), (1, "line"), (1, "utf8")]);
    let at = r.below(text.len());
    let at = text[at..].iter().position(|b| *b == b'\n').map_or(0, |p| at + p + 1);
    if bad == "line" {
        text.splice(at..at, *b"a line that says nothing\n");
    }
    let text = String::from_utf8(text).unwrap();
    json!({"ops": ops, "text": text, "bad": bad, "at": at, "exists": r.chance(80), "rates": rates})
}
/// Keys for files only: they look like syntax, or almost like another key.
const MORE: [&str; 6] = ["[x]", "a[0]", "d.pre fix", "\u{6f22}\u{5b57}", "a = b", "#7"];
type Table = BTreeMap<String, BTreeMap<String, String>>;
fn parse(t: &str) -> Table {
    let mut out = Table::new();
    let mut key = String::new();
    for l in t.lines().map(str::trim) {
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if let Some(k) = l.strip_prefix('[') {
            key = k[..k.len() - 1].into();
        } else if let Some((a, b)) = l.split_once('=') {
            out.entry(key.clone()).or_default().insert(a.trim().into(), b.trim().into());
        }
    }
    out
}
pub fn run_l10nfile(cfg: &Value) {
    hook(&["S08"]);
    let bad = cfg["bad"].as_str().unwrap_or("");
    let path = root().join("tr.toml");
    let mut want = Table::new();
    if cfg["exists"] == true {
        let t = cfg["text"].as_str().unwrap();
        let mut b = t.as_bytes().to_vec();
        if bad == "utf8" {
            let at = cfg["at"].as_u64().unwrap() as usize;
            b.splice(at..at, [0xff, b'\n']);
        }
        simrt::quiet(|| std::fs::write(&path, b).unwrap());
        want = parse(t);
    }
    const ERR_R: &[u32] = &[F_EIO_R, F_OPEN];
    const ERR: &[u32] = &[F_EIO_R, F_OPEN, F_ENOSPC, F_EIO_W, F_RENAME, F_UNLINK];
    for op in cfg["ops"].as_array().unwrap() {
        let mut kv: Vec<(String, String)> = op["keys"]
            .as_array()
            .unwrap()
            .iter()
            .map(|k| k.as_u64().unwrap() as usize)
            .map(|k| match KEYS.get(k) {
                Some(n) => (n.to_string(), json!(format!("v{} {}", op["v"], MSGS[k])).to_string()),
                None => (MORE[k - KEYS.len()].to_string(), json!(format!("v{} of {k}", op["v"])).to_string()),
            })
            .collect();
        let mut r = Rng(op["shuffle"].as_u64().unwrap());
        for i in (1..kv.len()).rev() {
            kv.swap(i, r.below(i + 1));
        }
        let before = simrt::quiet(|| std::fs::read(&path).ok());
        let (e0, r0) = (simrt::fired(ERR), simrt::fired(ERR_R));
        let w0 = simrt::fired(&[F_ENOSPC, F_EIO_W]);
        let res = tinymist_l10n::update_disk_translations(kv.clone(), &path);
        let after = simrt::quiet(|| std::fs::read(&path).ok());
        if cfg["exists"] == true && bad != "" {
            if res.is_ok() {
                viol(&["S08"], "unreadable", "a translation file that cannot be understood was updated");
            }
            if before != after {
                viol(&["S08"], "spoilt", "the translation file could not be understood and was changed");
            }
            return;
        }
        let after_text = after.as_ref().map(|a| String::from_utf8_lossy(a).into_owned());
        match res {
            Ok(()) => {
                hit(P::append_ok);
                // used keys keep their other languages, the rest goes
                let mut next = Table::new();
                for (k, v) in &kv {
                    let mut t = want.remove(k).unwrap_or_default();
                    t.insert("en".into(), v.clone());
                    next.insert(k.clone(), t);
                }
                want = next;
                let got = after_text.as_deref().map(parse).unwrap_or_default();
                if got != want {
                    viol(&["S08"], "update", &format!("the translation file holds {got:?} instead of {want:?}"));
                }
                let t = after_text.unwrap();
                // keys in order, English first, then the languages in order
                let (mut order, mut key) = (vec![], String::new());
                for l in t.lines().map(str::trim).filter(|l| !l.is_empty() && !l.starts_with('#')) {
                    if let Some(k) = l.strip_prefix('[') {
                        key = k[..k.len() - 1].into();
                    } else {
                        let lang = l.split('=').next().unwrap().trim();
                        order.push((key.clone(), lang != "en", lang.to_string()));
                    }
                }
                if !order.is_sorted() {
                    viol(&["S08"], "order", "the translation file is not in order");
                }
                if tinymist_l10n::deserialize(&t, true).is_err() {
                    viol(&["S08"], "update", "the written translation file cannot be read");
                }
            }
            Err(e) => {
                hit(P::write_reported_error);
                if simrt::fired(ERR) == e0 {
                    viol(&["S08"], "error", &format!("updating the translations failed although nothing went wrong: {e:#}"));
                }
                if simrt::fired(&[F_ENOSPC, F_EIO_W]) == w0 && simrt::fired(ERR_R) != r0 && before != after {
                    viol(&["S08"], "spoilt", "the translation file could not be read or opened and was changed");
                }
                return;
            }
        }
        work(1);
    }
}
