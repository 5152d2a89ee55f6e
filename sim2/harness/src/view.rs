//! Previews: browsers look at documents while the editor edits, jumps and
//! ends previews.
use super::*;
use hyper_tungstenite::{servers, tungstenite::Message, Browser};

const BROWSERS: u64 = 0x7c00_0004;
const V6: &[&str] = &["V06"];
const V7: &[&str] = &["V07"];
const V8: &[&str] = &["V08"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Life {
    Starting,
    Live,
    Dead,
    /// its project was replaced while it started
    Lost,
}
pub struct Tab {
    id: String,
    port: Option<u16>,
    primary: bool,
    entry: Option<usize>,
    on_save: bool,
    pub life: Life,
    /// how often it was told to end, and whether before it was known to run
    kills: usize,
    early: bool,
    disposed: usize,
    lost: bool,
    /// what its browsers show since it was refreshed, if known, and what that
    /// depended on at the last rest
    held: Option<Option<String>>,
    /// its document has been compiled once without an error
    good: bool,
    deps: BTreeSet<usize>,
    /// started, or ended, since the last rest
    fresh: bool,
    ended: bool,
}
pub struct Page {
    tab: usize,
    b: Browser,
    left: bool,
    asked: bool,
    /// it has asked for the whole document, which there is
    wants: bool,
    /// connected since the last rest
    fresh: bool,
    made: u64,
    text: Option<String>,
    heard: Vec<String>,
}
#[derive(Default)]
pub struct View {
    pub on: bool,
    pub tabs: Vec<Tab>,
    pages: Vec<Page>,
    shown: Vec<Value>,
    outlines: Vec<Value>,
    /// the outline of the only tab that is looked at
    last: Option<(usize, Value)>,
    /// what was said to be the places of titles
    spans: BTreeMap<(usize, String), (usize, usize)>,
    recent: Vec<String>,
    lat: Vec<u64>,
}
fn v() -> &'static mut View {
    &mut w().pv
}
/// What the document of a project is made of.
#[derive(Default)]
pub struct Lines {
    pub spans: Vec<Option<(usize, usize)>>,
    /// title, depth, line of the page, where it comes from
    pub titles: Vec<(String, usize, usize, Option<(usize, usize)>)>,
}
fn place(s: typst::syntax::Span) -> Option<(usize, usize)> {
    Some((of_id(s.id()?)?, s.number()? as usize))
}
pub fn lines_of(d: &typst::layout::PagedDocument) -> Lines {
    let titles = d.introspector.0.iter().filter_map(|c| {
        let h = c.to_packed::<typst::model::HeadingElem>()?;
        let (at, depth, there) = h.at();
        there.then(|| (c.plain_text().trim().to_string(), depth, at, place(c.span())))
    });
    Lines { spans: d.pages[0].frame.0.iter().map(|s| place(*s)).collect(), titles: titles.collect() }
}

// ---- generation --------------------------------------------------------------------

pub fn gen_preview(r: &mut Rng, e: &Env) -> Value {
    let mut g = gen_editor(r, e);
    g["calm"] = Value::Null;
    g["default"] = json!(false);
    for k in ["disk_full", "write_error", "rename_error"] {
        g["rates"].as_object_mut().unwrap().remove(k);
    }
    g["cfg"]["exportPdf"] = json!("never");
    let mut ops = vec![];
    let typing = r.chance(8);
    let busy = r.range(5, 30) as usize;
    let wait = |r: &mut Rng| *r.weighted(&[(6, 0u64), (2, 1), (2, 8), (2, 40), (1, 120)]);
    ops.push(start(r));
    ops.push(json!({"k": "pconnect", "p": 0, "room": 8, "wait": 0}));
    for mut o in g["ops"].as_array().unwrap().clone() {
        while r.chance(busy) {
            let mut o = match *r.weighted(&[(5, "start"), (6, "connect"), (4, "kill"), (1, "killall"), (2, "leave"), (8, "poke"), (3, "many"), (8, "jump")]) {
                "start" => start(r),
                "connect" => json!({"k": "pconnect", "p": r.below(100), "room": *r.weighted(&[(3, 1), (2, 3), (4, 8)])}),
                "kill" => json!({"k": "pkill", "p": r.below(100)}),
                "killall" => json!({"k": "pkillall"}),
                "leave" => json!({"k": "pleave", "p": r.below(100)}),
                "jump" => json!({"k": "pjump", "j": r.below(7), "p": r.below(100), "n": r.below(1000), "m": r.below(100)}),
                k => json!({"k": "ppoke", "times": if k == "many" { r.range(3, 30) } else { 1 }, "j": r.below(8), "p": r.below(100), "n": r.below(1000), "m": r.below(100)}),
            };
            o["wait"] = json!(wait(r));
            ops.push(o);
        }
        if o["k"] == "config" {
            o["pull"] = json!(false);
            o["set"]["exportPdf"] = json!("never");
        }
        if o["k"] == "config" && r.chance(50) {
            o["hasty"] = json!(true);
            let mut s = start(r);
            s["how"] = json!(2);
            ops.push(s);
        }
        let stop = o["k"] == "save" && r.chance(40) || o["k"] == "change" && r.chance(8) || o["k"] == "focusMain" && r.chance(15);
        ops.push(o);
        if stop {
            ops.push(json!({"k": "rest", "f": 0, "s": 0, "wait": 0}));
        }
    }
    if typing {
        let at = r.range(2, ops.len());
        let jump = |r: &mut Rng, j: u64| json!({"k": "pjump", "j": j, "p": 0, "n": r.below(1000), "m": r.below(100), "wait": 0});
        let mut l = vec![jump(r, 6), json!({"k": "ptype", "p": 0, "n": r.below(100), "times": r.range(28, 42), "wait": 0})];
        l.extend((0..3).map(|_| jump(r, 6)));
        ops.splice(at..at, l);
    }
    g["ops"] = json!(ops);
    g["preview"] = json!((0..r.range(1, 3)).map(|_| *r.weighted(&[(4, 0), (2, 1), (1, 20), (1, 60)])).collect::<Vec<u64>>());
    g
}
fn start(r: &mut Rng) -> Value {
    json!({"k": "pstart", "wait": *r.weighted(&[(3, 0), (1, 10)]), "f": r.below(4), "how": *r.weighted(&[(4, 0), (2, 1), (5, 2)]), "save": r.chance(25), "partial": r.chance(20), "entry": r.chance(80)})
}

// ---- the editor and the browsers ---------------------------------------------------

/// The tabs that can be told to end, or be looked at.
fn pick(p: u64, ok: impl Fn(&Tab) -> bool) -> Option<usize> {
    let l: Vec<usize> = (0..v().tabs.len()).filter(|i| ok(&v().tabs[*i])).collect();
    (!l.is_empty()).then(|| l[p as usize % l.len()])
}
fn taken() -> bool {
    v().tabs.iter().any(|t| t.primary && t.life != Life::Dead)
}
fn live(t: &Tab) -> bool {
    t.life == Life::Live && t.kills == 0
}
fn ends(i: usize) {
    let t = &mut v().tabs[i];
    t.life = Life::Dead;
    t.ended = true;
}
/// The project is not held any more.
fn unpin() {
    if !taken() {
        w().m.pinby = false;
        w().m.browsing = false;
    }
}
/// All previews end as the projects are made anew.
pub fn reloaded() {
    for i in 0..v().tabs.len() {
        match v().tabs[i].life {
            Life::Dead => {}
            Life::Starting => v().tabs[i].life = Life::Lost,
            _ => ends(i),
        }
    }
}
/// Before the projects are made anew, and after.
pub fn settle() {
    if v().on && !v().tabs.is_empty() {
        rest();
        unpin();
    }
    for i in 0..v().tabs.len() {
        if v().tabs[i].life == Life::Lost {
            v().tabs[i].lost = true;
            ends(i);
            command("tinymist.doKillPreview", json!([v().tabs[i].id]), Expect::Any);
            rest();
        }
    }
}
/// May the projects be made anew right now?
pub fn hasty() -> bool {
    v().on && v().tabs.iter().any(|t| t.life == Life::Starting && !t.primary) && v().tabs.iter().all(|t| t.life == Life::Dead || !t.primary && t.kills == 0)
}
fn alive(i: usize) -> Vec<usize> {
    (0..v().pages.len()).filter(|p| v().pages[*p].tab == i && !v().pages[*p].left).collect()
}
pub fn op(op: &Value) {
    let n = |k: &str| op[k].as_u64().unwrap_or(0);
    match op["k"].as_str().unwrap() {
        "pstart" => {
            let how = n("how");
            let entry = (op["entry"] == true || how != 1).then_some(n("f") as usize).filter(|f| *f < 3).or((how != 1).then_some(0));
            let id = format!("t{}", v().tabs.len());
            let mut args = vec!["--task-id".to_string(), id.clone(), "--data-plane-host=127.0.0.1:0".into()];
            args.push(format!("--refresh-style={}", if op["save"] == true { "onSave" } else { "onType" }));
            if op["partial"] == true {
                args.push("--partial-rendering".into());
            }
            if how == 2 {
                args.push("--not-primary".into());
            }
            let primary = how != 2 && !taken();
            if let Some(f) = entry {
                args.push(path(f).to_str().unwrap().into());
            }
            let cmd = if how == 1 { "tinymist.doStartBrowsingPreview" } else { "tinymist.doStartPreview" };
            if !primary && entry.is_none() {
                return command(cmd, json!([args]), Expect::Error);
            }
            if primary {
                if entry.is_some() {
                    set_main(entry);
                }
                let m = &mut w().m;
                m.pinby = true;
                m.browsing = how == 1;
                // its project is compiled again
                m.seen |= m.main.is_some();
            }
            let tab = v().tabs.len();
            let on_save = op["save"] == true;
            // its project may have other files looked at, and then watched
            w().w.asks += 1;
            v().tabs.push(Tab { id, port: None, primary, entry, on_save, life: Life::Starting, kills: 0, early: false, disposed: 0, lost: false, held: None, good: false, deps: BTreeSet::new(), fresh: true, ended: false });
            command(cmd, json!([args]), Expect::Start { tab });
        }
        "pkill" => {
            let Some(i) = pick(n("p"), |t| t.life != Life::Dead && t.kills == 0) else { return };
            let t = &mut v().tabs[i];
            t.kills += 1;
            t.early = t.life == Life::Starting;
            let primary = t.primary;
            command("tinymist.doKillPreview", json!([t.id]), Expect::Kill { tab: i });
            if primary {
                settle();
            }
        }
        "pkillall" => {
            settle();
            for i in 0..v().tabs.len() {
                if v().tabs[i].life == Life::Live {
                    v().tabs[i].kills += 1;
                    ends(i);
                }
            }
            command("tinymist.doKillPreview", json!([]), Expect::Null);
            settle();
        }
        "pconnect" => {
            if v().pages.is_empty() {
                rest();
            }
            let Some(i) = pick(n("p"), |t| live(t) && t.port.is_some()) else { return };
            let Some(b) = servers::connect(v().tabs[i].port.unwrap(), n("room") as usize) else {
                return viol(V8, "connect", &format!("nothing answers at the port of {}, which runs", v().tabs[i].id));
            };
            if alive(i).len() > 3 {
                return;
            }
            b.upgrade(Ok(()));
            b.say(Ok(Message::Text("current".into())));
            v().pages.push(Page { tab: i, b, left: false, asked: true, wants: false, fresh: true, made: 0, text: None, heard: vec![] });
            simrt::wake_all(BROWSERS);
            hit(P::browsers_connected);
        }
        "pleave" => {
            let l: Vec<usize> = (0..v().pages.len()).filter(|p| !v().pages[*p].left).collect();
            if !l.is_empty() {
                let p = &mut v().pages[l[n("p") as usize % l.len()]];
                p.left = true;
                p.b.leave();
            }
        }
        "ppoke" => {
            let Some(i) = pick(n("p"), live) else { return };
            for k in 0..n("times") {
                poke(i, n("j"), n("n") + k * 7, n("m") + k);
            }
        }
        // someone types, slowly, into what a browser shows
        "ptype" => {
            let Some(i) = pick(n("p"), live) else { return };
            let Some(f) = main_of(&v().tabs[i]).filter(|f| *f < 3 && !alive(i).is_empty()) else { return };
            super::op(&json!({"k": "open", "f": f, "s": 0, "wait": 0}));
            for k in 0..n("times") {
                let (full, a, t) = match k {
                    0 => (true, 0, "#title first 12\nplain\n#title é 4\n"),
                    k if k % 9 == 8 => (false, 0, ["#title 𝒳 1\n", "x\n"][(k / 9 % 2) as usize]),
                    _ => (false, 1000, "z"),
                };
                super::op(&json!({"k": "change", "f": f, "s": 0, "wait": 300, "edits": [{"a": a, "b": a, "t": t, "over": 0, "full": full, "line": false}]}));
                if k < 3 {
                    rest();
                    super::check();
                }
            }
            hit(P::typed_long);
        }
        "pjump" => jump(n("j"), n("p"), n("n") as usize, n("m") as usize),
        _ => {}
    }
}
fn client_jump(i: usize, req: Value) {
    let id = v().tabs[i].id.clone();
    command("tinymist.scrollPreview", json!([id, req]), Expect::Null);
}
fn at(f: usize, line: usize) -> Value {
    json!({"filepath": path(f), "line": line, "character": 0})
}
fn with(mut v: Value, event: &str) -> Value {
    v["event"] = json!(event);
    v
}
/// Something is clicked on; nobody looks at what comes of it.
fn poke(i: usize, j: u64, n: u64, m: u64) {
    let a = alive(i);
    let k = (!a.is_empty()).then(|| a[m as usize % a.len()]);
    let page = k.map(|k| v().pages[k].b.clone());
    let hex = || {
        let r = &v().recent;
        if r.is_empty() || n % 5 == 0 { format!("{:x}", n << 32 | m % 7) } else { r[n as usize % r.len()].clone() }
    };
    let (f, line) = (n as usize % 4, n as usize % 5);
    match (j, page) {
        (0, Some(b)) => {
            let p = &mut v().pages[k.unwrap()];
            p.wants |= p.text.is_some();
            b.say(Ok(Message::Text("current".into())))
        }
        (1, Some(b)) => b.say(Ok(Message::Text(format!("src-point {}", json!({"page_no": 1 + n % 2, "x": m % 3, "y": line}))))),
        (2, Some(b)) => b.say(Ok(Message::Text(format!("srcpath [[1,{line},\"x\"]]")))),
        (3, Some(b)) => b.say(Ok(Message::Text(format!("srclocation {}", hex())))),
        (4, Some(b)) => b.say(Ok(Message::Text("outline-sync,1 2 3".into()))),
        (5, _) => client_jump(i, with(json!({"span": hex()}), "sourceScrollBySpan")),
        (6, _) => client_jump(i, with(at(f, line), "panelScrollTo")),
        _ => client_jump(i, with(at(f, line), "changeCursorPosition")),
    }
    hit(P::browsers_poked);
}
/// The project a tab shows.
fn main_of(t: &Tab) -> Option<usize> {
    if t.primary { w().m.main } else { t.entry }
}
fn jump(j: u64, p: u64, n: usize, m: usize) {
    rest();
    super::check();
    let Some(i) = pick(p, |t| live(t)) else { return };
    let Some(main) = main_of(&v().tabs[i]) else { return };
    let pages = alive(i);
    let o = outcome(main);
    let (Some(text), false, false) = (&o.text, main == UNTITLED, pages.is_empty()) else { return };
    if v().pages[pages[0]].text.as_ref() != Some(text) {
        return;
    }
    v().shown.clear();
    for p in &mut v().pages {
        p.heard.clear();
    }
    let l = &o.lines;
    let b = v().pages[pages[m % pages.len()]].b.clone();
    let say = |s: String| b.say(Ok(Message::Text(s)));
    let mut place = None;
    let (mut column, mut x) = (0, 0);
    let mut must = true;
    let mut each: Option<Vec<String>> = None;
    let mut what;
    match j {
        0 | 1 => {
            if l.spans.is_empty() {
                return;
            }
            let k = n % l.spans.len();
            place = l.spans[k];
            what = format!("a click on line {k}");
            if j == 0 && m % 4 == 1 {
                // nothing is on the other pages
                place = None;
                what = format!("a click on line {k} of another page");
                say(format!("src-point {}", json!({"page_no": if m % 8 == 1 { 2 } else { 0 }, "x": 0, "y": k})));
            } else if j == 0 {
                // inside the line where its characters are as many units in every encoding
                let line = place.and_then(|(f, n)| w().m.docs[f].text().and_then(|t| t.lines().nth(n).map(|l| l.to_string())));
                if let Some(s) = line.filter(|s| m % 4 == 2 && !s.is_empty() && !s.starts_with('#') && s.chars().all(|c| c.len_utf16() == 1)) {
                    let at: Vec<(usize, char)> = s.char_indices().collect();
                    column = n / 7 % at.len();
                    x = at[column].0;
                }
                say(format!("src-point {}", json!({"page_no": 1, "x": x, "y": k})));
            } else {
                say(format!("srcpath [[1,{k},\"x\"]]"));
            }
        }
        2 | 3 => {
            let fs: Vec<usize> = o.deps.iter().copied().filter(|f| *f != UNTITLED && w().m.docs[*f].text().is_some()).collect();
            let f = fs[m % fs.len()];
            let t = w().m.docs[f].text().unwrap().to_string();
            let count = t.lines().count();
            if count == 0 {
                return;
            }
            let line = n % count;
            what = format!("the cursor in line {line} of {f}");
            let to: Vec<usize> = (0..l.spans.len()).filter(|k| l.spans[*k] == Some((f, line))).collect();
            if j == 2 {
                let list: Vec<String> = to.iter().map(|k| format!("1 0 {k}")).collect();
                each = Some(if list.is_empty() { vec![] } else { vec![format!("jump,{}", list.join(","))] });
                client_jump(i, with(at(f, line), "panelScrollTo"));
            } else {
                let paths: Vec<String> = to.iter().map(|k| format!("[{{\"kind\":1,\"index\":{k},\"fingerprint\":\"0\"}}]")).collect();
                each = Some(if t.lines().nth(line).unwrap().starts_with('#') { vec![] } else { vec![format!("cursor-paths,[{}]", paths.join(","))] });
                client_jump(i, with(at(f, line), "changeCursorPosition"));
            }
        }
        4 => {
            what = "a jump to a position".to_string();
            each = Some(vec!["viewport,1 2 3".into()]);
            client_jump(i, json!({"event": "panelScrollByPosition", "position": {"page_no": 1, "x": 2, "y": 3}}));
        }
        5 => {
            what = "a click in a browser's outline".to_string();
            each = Some(vec![format!("viewport,{} {m} 3", n + 1)]);
            say(format!("outline-sync,{} {m} 3", n + 1));
        }
        _ => {
            let newest: Vec<String> = match &v().last {
                Some((t, o)) if *t == i => ids(o),
                _ => vec![],
            };
            let all: Vec<String> = v().spans.keys().filter(|k| k.0 == i).map(|k| k.1.clone()).collect();
            let list = if m % 2 == 0 || newest.is_empty() { &all } else { &newest };
            if list.is_empty() {
                return;
            }
            let hex = list[n % list.len()].clone();
            place = v().spans.get(&(i, hex.clone())).copied();
            if place.is_none() {
                return;
            }
            must = newest.contains(&hex);
            what = format!("a click on {hex} in the outline");
            if m % 3 == 0 {
                client_jump(i, with(json!({"span": hex}), "sourceScrollBySpan"));
            } else {
                say(format!("srclocation {hex}"));
            }
        }
    }
    rest();
    hit(P::jumps_checked);
    for s in &v().shown {
        let Some((f, line)) = place else {
            return viol(V7, "shown", &format!("{what} makes the editor show {s}"));
        };
        if s["uri"] != json!(uri(f)) || s["selection"]["start"] != json!({"line": line, "character": column}) {
            return viol(V7, "shown", &format!("{what}, which comes from line {line}, column {column} of {f}, makes the editor show {s}"));
        }
    }
    if place.is_some() && must && v().shown.is_empty() {
        return viol(V7, "shown", &format!("{what}, which comes from {place:?}, makes the editor show nothing"));
    }
    for (k, p) in v().pages.iter().enumerate() {
        if p.left {
            continue;
        }
        let got: BTreeSet<&String> = p.heard.iter().collect();
        let want = match &each {
            Some(e) if p.tab == i => e.iter().collect(),
            _ => BTreeSet::new(),
        };
        if got != want {
            return viol(V7, "jump", &format!("after {what} browser {k} of {} was told {got:?} where it should be {want:?}", v().tabs[p.tab].id));
        }
    }
}
fn items(o: &Value, depth: usize, out: &mut Vec<(String, usize, Value, String)>) {
    for i in o.as_array().into_iter().flatten() {
        out.push((i["title"].as_str().unwrap_or("").into(), depth, i["position"].clone(), i["span"].as_str().unwrap_or("").into()));
        items(&i["children"], depth + 1, out);
    }
}
fn flat(o: &Value) -> Vec<(String, usize, Value, String)> {
    let mut out = vec![];
    items(&o["items"], 0, &mut out);
    out
}
fn ids(o: &Value) -> Vec<String> {
    flat(o).into_iter().map(|i| i.3).collect()
}

/// A request or notification from the server.
pub fn incoming(method: &str, params: &Value) {
    if !v().on {
        return;
    }
    match method {
        "window/showDocument" => v().shown.push(params.clone()),
        "tinymist/documentOutline" => {
            v().recent.extend(ids(params));
            let n = v().recent.len().saturating_sub(40);
            v().recent.drain(..n);
            v().outlines.push(params.clone());
        }
        "tinymist/preview/dispose" => {
            let id = params["taskId"].as_str().unwrap_or("");
            match v().tabs.iter_mut().find(|t| t.id == id) {
                Some(t) => t.disposed += 1,
                None => viol(V8, "dispose", &format!("{id}, which never was, has ended")),
            }
        }
        _ => {}
    }
}
pub fn started(tab: usize, m: &Value) {
    let t = &mut v().tabs[tab];
    let r = &m["result"];
    let Some(p) = r["staticServerPort"].as_u64().map(|p| p as u16) else {
        return viol(V8, "start", &format!("{} does not start: {m}", t.id));
    };
    if r["dataPlanePort"] != r["staticServerPort"] || r["isPrimary"] != json!(t.primary) {
        return viol(V8, "start", &format!("{}, primary: {}, is said to have started as {r}", t.id, t.primary));
    }
    if t.life == Life::Starting {
        t.life = Life::Live;
        if t.kills == 0 && !servers::ports().contains(&p) {
            return viol(V8, "start", &format!("nothing listens at the port of {}", t.id));
        }
    }
    t.port = Some(p);
    hit(P::previews_started);
}
pub fn killed(tab: usize, err: Option<&Value>) {
    let t = &mut v().tabs[tab];
    match err {
        None => {
            ends(tab);
            hit(P::previews_ended);
            if let Some(p) = t.port.filter(|p| servers::ports().contains(p)) {
                viol(V8, "kill", &format!("{} has ended but still listens at {p}", t.id));
            }
        }
        // not yet there
        Some(_) if t.early => t.kills = 0,
        // ended with all others
        Some(_) if t.life == Life::Dead => {}
        Some(e) => viol(V8, "kill", &format!("{} cannot be ended: {e}", t.id)),
    }
}
/// The documents that are compiled besides the main one.
pub fn others() -> Vec<usize> {
    v().tabs.iter().filter(|t| t.life == Life::Live && !t.primary).filter_map(|t| t.entry).collect()
}
pub fn idle() -> bool {
    v().pages.iter().all(|p| p.left || p.b.is_idle())
}
/// Everything is at rest.
pub fn check(win: &Window) {
    if !v().on {
        return;
    }
    unpin();
    for t in &v().tabs {
        let open = t.port.is_some_and(|p| servers::ports().contains(&p));
        match t.life {
            Life::Starting | Life::Lost => return viol(V8, "start", &format!("{} never starts", t.id)),
            Life::Live if !open => return viol(V8, "start", &format!("{} runs but nothing listens at its port", t.id)),
            Life::Dead if open => return viol(V8, "kill", &format!("{} has ended but still listens", t.id)),
            Life::Dead if t.disposed != 1 && !(t.lost && t.disposed == 0) => return viol(V8, "dispose", &format!("the editor was told {} times that {} has ended", t.disposed, t.id)),
            Life::Live if t.disposed > 0 => return viol(V8, "dispose", &format!("the editor was told that {}, which runs, has ended", t.id)),
            _ => {}
        }
    }
    let still = win.mem == 0 && win.disk == 0 && win.closed == 0;
    for (k, p) in v().pages.iter().enumerate() {
        let t = &v().tabs[p.tab];
        let Some(main) = main_of(t).filter(|_| live(t) && !p.left && p.asked) else { continue };
        if p.wants {
            return viol(V6, "page", &format!("browser {k} of {} has asked for the whole document, but was not sent it", t.id));
        }
        if t.on_save && !(t.fresh && still) && !saved(t, win) {
            continue;
        }
        let Some(text) = outcome(main).text else { continue };
        hit(P::pages_checked);
        if p.text.as_ref() != Some(&text) {
            return viol(V6, "page", &format!("browser {k} of {} shows {:?}, the documents make {text:?}", t.id, p.text));
        }
    }
    held(win);
    // the outline
    let ended = v().tabs.iter().any(|t| t.ended);
    let seen: BTreeSet<usize> = v().pages.iter().map(|p| p.tab).filter(|t| v().tabs[*t].life == Life::Live).collect();
    let list = std::mem::take(&mut v().outlines);
    match seen.first() {
        Some(i) if seen.len() == 1 && !ended => {
            if let Some(o) = list.last() {
                v().last = Some((*i, o.clone()));
            }
            outline(*i, win);
        }
        _ => v().last = None,
    }
    for t in &mut v().tabs {
        (t.fresh, t.ended) = (false, false);
    }
    for p in &mut v().pages {
        p.fresh = false;
    }
}
/// All that happened since the last rest is that a document was saved, or
/// another one became the main one.
fn saved(t: &Tab, win: &Window) -> bool {
    let Some(main) = main_of(t) else { return false };
    if t.fresh || win.mem > 0 || win.closed > 0 || win.cfgs > 0 || win.reloads > 0 || !w().m.seen {
        return false;
    }
    let o = outcome(main);
    if !o.deps.is_disjoint(&w().cold) {
        return false;
    }
    if win.disk == 0 {
        return t.primary && win.mains > 0 && win.main != Some(main);
    }
    win.disk == 1 && win.mains == 0 && win.saved.is_some_and(|f| t.deps.contains(&f) && o.deps.contains(&f))
}
/// Previews that refresh on saving keep what they show until then.
fn held(win: &Window) {
    // no project has come to depend on a file that was not watched
    let known = others().into_iter().chain(w().m.main).all(|f| outcome(f).deps.is_subset(&win.deps));
    for i in 0..v().tabs.len() {
        let t = &v().tabs[i];
        let Some(main) = main_of(t).filter(|_| live(t)) else {
            v().tabs[i].held = None;
            continue;
        };
        let o = outcome(main);
        let shown: Vec<&Option<String>> = v().pages.iter().filter(|p| p.tab == i && !p.left && p.asked).map(|p| &p.text).collect();
        if shown.iter().any(|s| *s != shown[0]) {
            return viol(V6, "page", &format!("the browsers of {} show {shown:?}", t.id));
        }
        if shown.first().is_some_and(|s| s.is_none()) && t.good {
            return viol(V6, "page", &format!("the browsers of {} show nothing, although there is a document", t.id));
        }
        let good = t.good || shown.first().is_some_and(|s| s.is_some()) || !t.on_save && !t.fresh && w().m.seen && o.text.is_some();
        v().tabs[i].good = good;
        let t = &v().tabs[i];
        if !t.on_save {
            continue;
        }
        let calm = win.disk == 0 && win.closed == 0 && win.mains == 0 && win.cfgs == 0 && win.reloads == 0 && win.mem <= 1 && win.asks == 0 && !t.fresh && o.deps.is_subset(&t.deps) && known;
        let mut now = shown.first().map(|s| (*s).clone());
        if calm {
            match (&t.held, &now) {
                (Some(h), Some(n)) if h != n => {
                    return viol(V6, "page", &format!("the browsers of {}, which refreshes on saving, show {n:?} after {h:?} though nothing was saved", t.id));
                }
                (Some(_), Some(_)) if o.text != t.held.clone().flatten() => hit(P::pages_held),
                (Some(h), None) => now = Some(h.clone()),
                _ => {}
            }
        } else if saved(t, win) && o.text.is_some() {
            hit(P::pages_saved);
            now = now.or(Some(o.text.clone()));
        }
        let t = &mut v().tabs[i];
        (t.held, t.deps) = (now, o.deps);
    }
}
fn outline(i: usize, win: &Window) {
    let t = &v().tabs[i];
    let still = win.mem == 0 && win.disk == 0 && win.closed == 0;
    if t.on_save && !(t.fresh && still) || alive(i).is_empty() {
        v().last = None;
        return;
    }
    let Some(main) = main_of(t) else { return };
    let o = outcome(main);
    if o.text.is_none() {
        v().last = None;
        return;
    }
    let Some((_, got)) = v().last.clone().filter(|l| l.0 == i) else {
        if v().pages.iter().any(|p| p.tab == i && !p.left && p.fresh) {
            viol(V7, "outline", &format!("there is no outline of what {} shows", t.id));
        }
        return;
    };
    hit(P::outlines_checked);
    let got = flat(&got);
    let want: Vec<&(String, usize, usize, Option<(usize, usize)>)> = o.lines.titles.iter().collect();
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && g.2["page_no"] == 1 && g.2["y"].as_f64() == Some(w.2 as f64));
    if !same {
        return viol(V7, "outline", &format!("the outline is {got:?}, the titles are {want:?}"));
    }
    for (k, g) in got.iter().enumerate() {
        // deeper ones are below the ones before that are less deep
        if g.1 > 0 && !(0..k).rev().find(|b| got[*b].1 < g.1).is_some_and(|b| want[b].1 < want[k].1) {
            return viol(V7, "outline", &format!("the outline is {got:?}, the titles are {want:?}"));
        }
        if let Some(p) = want[k].3 {
            let old = v().spans.insert((i, g.3.clone()), p);
            if old.is_some_and(|o| o != p) {
                return viol(V7, "outline", &format!("{} is the name of two places, {old:?} and {p:?}", g.3));
            }
        }
    }
}

// ---- the browsers ------------------------------------------------------------------

fn hear(k: usize, m: Message) {
    let p = &mut v().pages[k];
    let text = match &m {
        Message::Binary(b) => String::from_utf8_lossy(b).into_owned(),
        m => return viol(V7, "jump", &format!("browser {k} is sent {m:?}")),
    };
    say(format_args!("browser {k}: {text:?}"));
    let (kind, rest) = text.split_once(',').unwrap_or((&text, ""));
    match kind {
        "diff-v1" | "new" => {
            let (n, t) = rest.split_once(',').unwrap_or(("", ""));
            let n: u64 = n.parse().unwrap_or(0);
            let ok = if kind == "new" { n == p.made || n == p.made + 1 } else { n == p.made + 1 };
            if !ok {
                return viol(V6, "order", &format!("browser {k} is sent change {n} ({kind}) after {}", p.made));
            }
            p.made = n;
            p.wants &= kind != "new";
            p.text = Some(t.into());
        }
        "partial-rendering" | "invert-colors" => {}
        _ => p.heard.push(text),
    }
}
pub fn setup(cfg: &Value) -> std::thread::JoinHandle<()> {
    v().on = cfg["preview"].is_array();
    let lat: Vec<u64> = cfg["preview"].as_array().into_iter().flatten().map(|l| l.as_u64().unwrap()).collect();
    v().lat = lat;
    *hyper_tungstenite::WAKE.lock().unwrap() = Some(|| simrt::wake_all(BROWSERS));
    std::thread::spawn(|| {
        let mut turn = 0;
        while !w().stop {
            let n = v().pages.len();
            let Some(k) = (0..n).map(|i| (i + turn) % n).find(|k| !v().pages[*k].left && v().pages[*k].b.has_news()) else {
                simrt::block_on(BROWSERS);
                continue;
            };
            turn = k + 1;
            let l = &v().lat;
            simrt::sleep(l[turn % l.len()] * MS);
            if let Some(m) = v().pages[k].b.hear() {
                hear(k, m);
            }
        }
    })
}
pub fn stop() {
    simrt::wake_all(BROWSERS);
}
