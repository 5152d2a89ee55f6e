//! The language server as a whole: an editor edits, saves, asks and exports
//! while files change on disk.
use crate::core::*;
use crate::probes::{hit, P};
use crate::root;
use crate::util::{hook, set_rate, Racy};
use notify::sim as ino;
use serde_json::{json, Map, Value};
use simrt::pipe::Pipe;
use simrt::sched::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::os::unix::fs::MetadataExt;
use std::path::PathBuf;
use std::sync::Mutex;
use sync_ls::{transport, LspBuilder, LspClientRoot, LspMessage};
use tinymist::{RegularInit, ServerState};
use typst::diag::{FileError, FileResult, Severity, SourceDiagnostic};
use typst::foundations::Bytes;
use typst::syntax::{FileId, Source, VirtualPath};

#[path = "view.rs"]
pub mod view;

const MS: u64 = 1_000_000;
const KERNEL: u64 = 0x7c00_0001;
const OUTBOX: u64 = 0x7c00_0002;
const ANSWER: u64 = 0x7c00_0003;
const NF: usize = 5;
const UNTITLED: usize = 4;
const ALL: &[&str] = &["V03", "V04", "V05"];
const SEEN: &[&str] = &["V03", "V04", "V06", "V07", "V08"];
fn all() -> &'static [&'static str] {
    if w().pv.on { SEEN } else { ALL }
}
const NAMES: [&str; 4] = ["main.typ", "b é%.typ", "sub/c.typ", "data.txt"];
fn path(f: usize) -> PathBuf {
    if f == UNTITLED {
        return "/untitled/Untitled-1".into();
    }
    root().join(NAMES[f])
}
fn uri(f: usize) -> String {
    if f == UNTITLED {
        return "untitled:Untitled-1".into();
    }
    lsp_types::Url::from_file_path(path(f)).unwrap().to_string()
}
fn vpath(f: usize) -> String {
    if f == UNTITLED {
        return "/Untitled-1".into();
    }
    format!("/{}", NAMES[f])
}

// ---- the model ---------------------------------------------------------------------

#[derive(Clone, Default, PartialEq)]
struct Doc {
    open: Option<String>,
    disk: Option<String>,
}
impl Doc {
    fn text(&self) -> Option<&str> {
        self.open.as_deref().or(self.disk.as_deref())
    }
}
/// What the server was told, in the order in which it was.
#[derive(Default)]
struct Model {
    docs: Vec<Doc>,
    manual: bool,
    active: bool,
    focusing: Option<usize>,
    pinned: bool,
    default: bool,
    /// a preview holds the main file, or follows it
    pinby: bool,
    browsing: bool,
    main: Option<usize>,
    cfg: Value,
    /// what the user set, which a server that asks is told
    wanted: Value,
    pulls: usize,
    /// has any event reached the project?
    seen: bool,
}
/// What is known of the time since the last rest.
#[derive(Default, Clone)]
struct Window {
    mem: usize,
    disk: usize,
    closed: usize,
    mains: usize,
    cfgs: usize,
    reloads: usize,
    /// queries may make the world look at, and then watch, other files
    asks: usize,
    /// the last thing that happened to a text is that it was saved
    saved: Option<usize>,
    render: Option<String>,
    deps: BTreeSet<usize>,
    /// files that changed on disk, or of which what is on disk came to count
    touched: BTreeSet<usize>,
    main: Option<usize>,
    status_on: bool,
    exports: BTreeMap<(usize, String), Vec<Option<String>>>,
}
enum Expect {
    Any,
    Null,
    /// an error is expected
    Error,
    /// what a query has to see
    Query { what: Value },
    Format { text: String },
    Export { f: usize, kind: String },
    Start { tab: usize },
    Kill { tab: usize },
    Init,
    Shutdown,
}
struct Req {
    what: String,
    expect: Expect,
    sent: u64,
}
#[derive(Default)]
struct World {
    m: Model,
    w: Window,
    outbox: VecDeque<Value>,
    closed: bool,
    reqs: HashMap<i64, Req>,
    next: i64,
    inited: bool,
    utf8: bool,
    /// may writing files fail?
    faulty: bool,
    /// files whose text on disk changed while nothing watched them
    cold: BTreeSet<usize>,
    /// files that queries may have made the project look at
    asked: BTreeSet<usize>,
    /// diagnostics last published, by file
    diags: BTreeMap<usize, Vec<Value>>,
    status: Option<Value>,
    /// is the status sent last of the last window?
    fresh: bool,
    statuses: usize,
    stop: bool,
    done: Option<Result<(), String>>,
    pauses: Vec<u64>,
    npause: usize,
    /// compilations that take their time now
    pausing: usize,
    quiet: bool,
    stdin: Option<Pipe>,
    stdout: Option<Pipe>,
    pv: view::View,
}
static W: Racy<Option<World>> = Racy(std::cell::UnsafeCell::new(None));
fn w() -> &'static mut World {
    W.get().as_mut().unwrap()
}
fn say(m: std::fmt::Arguments) {
    if simrt::shm::shm().trace != 0 {
        simrt::trace_msg(&simrt::quiet(|| m.to_string()));
    }
}

// ---- generation --------------------------------------------------------------------

/// A text, by a number.
fn text(s: u64, data: bool) -> String {
    let mut r = Rng(s.wrapping_mul(77).wrapping_add(5));
    let nl = if r.chance(25) { "\r\n" } else { "\n" };
    let mut out = String::new();
    let n = r.range(0, 6);
    for i in 0..n {
        if i > 0 {
            out.push_str(nl);
        }
        out.push_str(&line(&mut r, data));
    }
    if n > 0 && r.chance(60) {
        out.push_str(nl);
    }
    out
}
fn line(r: &mut Rng, data: bool) -> String {
    let k = r.below(1000);
    let plain = ["", "x", "plain", "é and ü", "a  b  c", "中文 𝒳 text", "𐍈", "the quick brown fox", "©é中"];
    if data || r.chance(50) {
        return format!("{}{}", r.pick(&plain), if r.chance(50) { k.to_string() } else { String::new() });
    }
    match r.below(13) {
        0 => "#include /main.typ".into(),
        1 | 2 => "#include /sub/c.typ".into(),
        3 | 4 => "#include /b é%.typ".into(),
        5 => "#include c.typ".into(),
        6 | 7 => "#read /data.txt".into(),
        8 => format!("#error 𝒳 {k}"),
        9 => format!("#warn é {k}"),
        10 => format!("#lint {k}"),
        11 => format!("#title {k}"),
        _ => "#page".into(),
    }
}

pub fn gen_editor(r: &mut Rng, e: &Env) -> Value {
    let mut ops = vec![];
    let n = r.range(6, if e.thorough { 70 } else { 34 });
    let focus = *r.weighted(&[(6, 0), (2, 1), (2, 2), (1, 3), (1, 4)]);
    let pick = |r: &mut Rng| if r.chance(55) { focus } else { r.below(NF) };
    let burst = r.chance(50);
    let (files, alone) = (r.chance(70), r.chance(40));
    for _ in 0..n {
        let wait = *r.weighted(&[(if burst { 12 } else { 4 }, 0u64), (2, 1), (2, 8), (2, 40), (2, 120)]);
        let f = pick(r);
        let mut op = match *r.weighted(&[
            (5, "open"), (12, "change"), (2, "full"), (2, "close"), (if files { 4 } else { 0 }, "save"), (if files { 4 } else { 0 }, "disk"),
            (if files { 1 } else { 0 }, "rm"), (2, "focusMain"), (2, "pinMain"), (2, "config"), (8, "query"), (2, "format"), (2, "export"), (3, "rest"),
        ]) {
            "change" => {
                let edits: Vec<Value> = (0..*r.weighted(&[(6, 1), (2, 2), (1, 4)]))
                    .map(|_| {
                        let a = r.below(1001);
                        let b = if r.chance(40) { a } else { (a + r.below(200)).min(1000) };
                        let t = match r.below(5) {
                            0 => String::new(),
                            1 => line(r, f == 3) + "\n",
                            2 => format!("\n{}", line(r, f == 3)),
                            3 => r.pick(&["é", "𝒳", "z", "  ", "\n", "中\r\nx"]).to_string(),
                            _ => format!("w{}", r.below(100)),
                        };
                        json!({"a": a, "b": b, "t": t, "over": *r.weighted(&[(8, 0), (1, 1), (1, 1000)]), "full": r.chance(4), "line": r.chance(30)})
                    })
                    .collect();
                json!({"k": "change", "edits": edits})
            }
            "focusMain" => json!({"k": "focusMain", "null": r.chance(25)}),
            "pinMain" => json!({"k": "pinMain", "null": r.chance(50)}),
            "config" => json!({"k": "config", "pull": r.chance(40), "set": config(r)}),
            "query" => json!({"k": "query", "q": if alone { *r.pick(&[1, 2, 3, 4]) } else { r.below(QUERIES.len()) }, "at": r.below(1001)}),
            "export" => json!({"k": "export", "q": r.below(EXPORTS.len())}),
            "save" => {
                if r.chance(40) {
                    ops.push(json!({"k": "rest", "f": f, "s": 0, "wait": 0}));
                }
                json!({"k": "save", "late": r.chance(30)})
            }
            "rm" if r.chance(50) => json!({"k": "rest"}),
            k => json!({"k": k}),
        };
        op["f"] = json!(f);
        op["s"] = json!(r.below(100_000));
        op["wait"] = json!(wait);
        ops.push(op);
    }
    let mut rates = Map::new();
    set_rate(&mut rates, r, 15, "short_read", &[100, 400]);
    set_rate(&mut rates, r, 10, "read_eintr", &[100, 300]);
    set_rate(&mut rates, r, 15, "spurious_futex_wake", &[100]);
    set_rate(&mut rates, r, 20, "short_write", &[200, 600]);
    set_rate(&mut rates, r, 10, "write_eintr", &[100, 300]);
    set_rate(&mut rates, r, 10, "name_collision", &[200]);
    let mut calm = Value::Null;
    if r.chance(20) {
        calm = json!(n * 2 / 3);
        set_rate(&mut rates, r, 60, "disk_full", &[100, 400]);
        set_rate(&mut rates, r, 40, "write_error", &[100, 400]);
        set_rate(&mut rates, r, 40, "rename_error", &[100, 400]);
        if files || alone {
            exports(r, &mut ops);
        }
    }
    json!({"ops": ops, "calm": calm, "rates": rates, "cfg": config(r), "default": r.chance(15),
        "enc": r.below(4), "folders": r.chance(50), "namespaced": r.chance(30), "dynamic": r.below(4), "plain": r.chance(30),
        "missing": r.below(16) & r.below(16) & r.below(16), "text": r.below(100_000), "pause": (0..r.range(1, 4)).map(|_| *r.weighted(&[(5, 0), (2, 1), (2, 10), (1, 60)])).collect::<Vec<u64>>(),
        "lat": (0..r.range(1, 3)).map(|_| *r.weighted(&[(4, 0), (2, 1), (1, 20)])).collect::<Vec<u64>>(), "workers": r.range(1, 2), "rayon": r.range(1, 3)})
}
/// More of them.
fn exports(r: &mut Rng, ops: &mut [Value]) {
    for o in ops {
        if r.chance(30) && o["k"] == "query" {
            *o = json!({"k": "export", "q": r.below(EXPORTS.len()), "f": o["f"], "s": o["s"], "wait": o["wait"]});
        }
    }
}
fn config(r: &mut Rng) -> Value {
    let mut o = Map::new();
    if r.chance(70) {
        o.insert("compileStatus".into(), json!(if r.chance(75) { "enable" } else { "disable" }));
    }
    if r.chance(60) {
        o.insert("exportPdf".into(), json!(*r.pick(&["never", "onSave", "onType", "onType", "onDocumentHasTitle"])));
    }
    if r.chance(70) {
        o.insert("formatterMode".into(), json!(*r.pick(&["typstyle", "typstfmt", "disable"])));
    }
    if r.chance(25) {
        o.insert("fontPaths".into(), json!(["fonts"]));
    }
    if r.chance(20) {
        o.insert("semanticTokens".into(), json!(*r.pick(&["enable", "disable"])));
    }
    if r.chance(20) {
        o.insert("colorTheme".into(), json!(*r.pick(&["dark", "light"])));
    }
    Value::Object(o)
}

/// method, its name in the answers, whether it needs no project, and whether
/// it has a position
const QUERIES: &[(&str, &str, bool, bool)] = &[
    ("textDocument/hover", "Hover", false, true),
    ("textDocument/foldingRange", "FoldingRange", true, false),
    ("textDocument/selectionRange", "SelectionRange", true, true),
    ("textDocument/documentSymbol", "DocumentSymbol", true, false),
    ("experimental/onEnter", "OnEnter", true, true),
    ("textDocument/definition", "GotoDefinition", false, true),
    ("textDocument/references", "References", false, true),
    ("textDocument/signatureHelp", "SignatureHelp", false, true),
    ("textDocument/semanticTokens/full", "SemanticTokensFull", false, false),
    ("textDocument/documentHighlight", "DocumentHighlight", false, true),
    ("textDocument/prepareRename", "PrepareRename", false, true),
    ("textDocument/inlayHint", "InlayHint", false, true),
    ("textDocument/codeAction", "CodeAction", false, true),
    ("textDocument/codeLens", "CodeLens", false, false),
    ("textDocument/documentColor", "DocumentColor", false, false),
    ("textDocument/documentLink", "DocumentLink", false, false),
    ("textDocument/rename", "Rename", false, true),
    ("textDocument/completion", "Completion", false, true),
];
/// command, extension, what it puts in front of the text
const EXPORTS: &[(&str, &str, &str)] = &[
    ("tinymist.exportText", "txt", ""),
    ("tinymist.exportSvg", "svg", "svg:"),
    ("tinymist.exportHtml", "html", "html:"),
    ("tinymist.exportMarkdown", "md", "md:"),
    ("tinymist.exportPng", "png", "png:"),
];

// ---- what is expected --------------------------------------------------------------

fn find(p: &str) -> Option<usize> {
    (0..NF).find(|f| vpath(*f) == p)
}
/// The documents as the compiler has to see them.
struct Seen {
    main: usize,
    deps: Mutex<BTreeSet<usize>>,
    lib: typst::utils::LazyHash<typst::Library>,
    book: typst::utils::LazyHash<typst::text::FontBook>,
}
fn id_of(f: usize) -> FileId {
    FileId::new(None, VirtualPath::new(vpath(f)))
}
fn of_id(id: FileId) -> Option<usize> {
    find(id.vpath().as_rooted_path().to_str()?)
}
impl Seen {
    fn new(main: usize) -> Self {
        Self {
            main,
            deps: Default::default(),
            lib: typst::utils::LazyHash::new(Default::default()),
            book: typst::utils::LazyHash::new(Default::default()),
        }
    }
    fn get(&self, id: FileId) -> FileResult<String> {
        let f = of_id(id).filter(|f| (*f == UNTITLED) == (self.main == UNTITLED));
        if let Some(f) = f {
            self.deps.lock().unwrap().insert(f);
        }
        let t = f.and_then(|f| w().m.docs[f].text());
        t.map(|t| t.to_string()).ok_or_else(|| FileError::NotFound(id.vpath().as_rooted_path().into()))
    }
}
impl typst::World for Seen {
    fn library(&self) -> &typst::utils::LazyHash<typst::Library> {
        &self.lib
    }
    fn book(&self) -> &typst::utils::LazyHash<typst::text::FontBook> {
        &self.book
    }
    fn main(&self) -> FileId {
        id_of(self.main)
    }
    fn source(&self, id: FileId) -> FileResult<Source> {
        Ok(Source::new(id, self.get(id)?))
    }
    fn file(&self, id: FileId) -> FileResult<Bytes> {
        Ok(Bytes::from_string(self.get(id)?))
    }
    fn font(&self, _: usize) -> Option<typst::text::Font> {
        None
    }
    fn today(&self, _: Option<i64>) -> Option<typst::foundations::Datetime> {
        None
    }
}
struct Outcome {
    lines: view::Lines,
    text: Option<String>,
    pages: usize,
    deps: BTreeSet<usize>,
    diags: BTreeMap<usize, Vec<Value>>,
    lints: BTreeMap<usize, Vec<Value>>,
}
/// The length of a text in the units of the positions.
fn units(s: &str) -> usize {
    if w().utf8 {
        s.len()
    } else {
        s.encode_utf16().count()
    }
}
fn lines(t: &str) -> Vec<&str> {
    t.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect()
}
fn range_of(f: usize, at: typst::syntax::Span) -> Value {
    let none = json!({"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}});
    let Some(t) = w().m.docs[f].text() else { return none };
    let src = Source::new(id_of(f), t.to_string());
    let Some(r) = src.range(at) else { return none };
    let n = t[..r.start].matches('\n').count();
    json!({"start": {"line": n, "character": 0}, "end": {"line": n, "character": units(lines(t)[n])}})
}
fn stripped(m: &str) -> String {
    if m.starts_with("file not found") || m.starts_with("failed to load file") {
        return "cannot be read".into();
    }
    match m.find(" (searched at ") {
        Some(i) => m[..i].into(),
        None => m.into(),
    }
}
fn diag_of(main: usize, d: &SourceDiagnostic) -> Option<(usize, Value)> {
    let at = std::iter::once(d.span).chain(d.trace.iter().map(|t| t.span)).find(|s| s.id().is_some());
    let f = match at {
        Some(s) => of_id(s.id().unwrap())?,
        None => main,
    };
    w().m.docs[f].text()?;
    let related: Vec<Value> = d
        .trace
        .iter()
        .filter_map(|t| {
            let f = of_id(t.span.id()?)?;
            Some(json!({"location": {"uri": uri(f), "range": range_of(f, t.span)}, "message": t.v.to_string()}))
        })
        .collect();
    let r = at.map_or(json!({"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}), |s| range_of(f, s));
    let mut v = json!({"range": r, "severity": if d.severity == Severity::Error { 1 } else { 2 }, "message": stripped(&d.message), "source": "typst"});
    if !related.is_empty() {
        v["relatedInformation"] = json!(related);
    }
    Some((f, v))
}
fn outcome(main: usize) -> Outcome {
    w().quiet = true;
    let o = simrt::quiet(|| {
        let world = Seen::new(main);
        let res = typst::compile::<typst::layout::PagedDocument>(&world);
        let (mut diags, mut lints) = (BTreeMap::<usize, Vec<Value>>::new(), BTreeMap::<usize, Vec<Value>>::new());
        let lines = res.output.as_ref().map(view::lines_of).unwrap_or_default();
        let (text, pages, errors) = match res.output {
            Ok(d) => (Some(d.pages[0].text.clone()), d.pages.len(), vec![]),
            Err(e) => (None, 0, e.into_iter().collect()),
        };
        for d in errors.iter().chain(res.warnings.iter()) {
            if let Some((f, v)) = diag_of(main, d) {
                diags.entry(f).or_default().push(v);
            }
        }
        let deps = world.deps.lock().unwrap().clone();
        for f in &deps {
            let Some(t) = w().m.docs[*f].text() else { continue };
            for (n, l) in self::lines(t).into_iter().enumerate() {
                if let Some(m) = l.strip_prefix("#lint ") {
                    let v = json!({"range": {"start": {"line": n, "character": 0}, "end": {"line": n, "character": units(l)}}, "severity": 2, "message": m, "source": "typst"});
                    lints.entry(*f).or_default().push(v);
                }
            }
        }
        Outcome { lines, text, pages, deps, diags, lints }
    });
    w().quiet = false;
    o
}
/// A compilation takes time.
fn pause(at: u32) {
    let w = w();
    if w.quiet || at != 0 && w.npause % 3 != 0 {
        return;
    }
    let n = w.pauses[w.npause % w.pauses.len()];
    w.npause += 1;
    if n > 0 {
        w.pausing += 1;
        simrt::sleep(n * MS);
        w.pausing -= 1;
    }
}

// ---- the editor --------------------------------------------------------------------

fn send(v: Value) {
    w().outbox.push_back(v);
    simrt::wake_all(OUTBOX);
}
fn notify_(method: &str, params: Value) {
    send(json!({"jsonrpc": "2.0", "method": method, "params": params}));
}
fn request(method: &str, params: Value, what: String, expect: Expect) {
    let w = w();
    w.next += 1;
    let id = w.next;
    w.reqs.insert(id, Req { what, expect, sent: simrt::now() });
    send(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
}
fn command(name: &str, args: Value, expect: Expect) {
    request("workspace/executeCommand", json!({"command": name, "arguments": args}), name.into(), expect)
}
fn set_main(f: Option<usize>) {
    let w = w();
    w.m.seen = true;
    w.w.mains += 1;
    w.m.main = f;
}
fn focus(f: Option<usize>) {
    let m = &mut w().m;
    m.focusing = f;
    if !m.pinned && !m.default && !(m.pinby && !m.browsing) {
        set_main(f);
    }
}
fn implicit(f: usize, active: bool) {
    let m = &mut w().m;
    if m.manual || !active && m.active {
        return;
    }
    m.active |= active;
    focus(Some(f));
}
/// What is on disk becomes something else, or becomes what counts.
fn cool(f: usize) {
    let w = w();
    w.w.touched.insert(f);
    if !w.w.deps.contains(&f) {
        w.cold.insert(f);
    }
}
fn memory() {
    let w = w();
    w.w.mem += 1;
    w.w.saved = None;
    w.m.seen = true;
}
/// The server is given another configuration.
fn configure(c: &Value) {
    let w = w();
    let old = std::mem::replace(&mut w.m.cfg, c.clone());
    w.w.cfgs += 1;
    if old.get("fontPaths") != c.get("fontPaths") {
        hit(P::projects_reloaded);
        w.w.reloads += 1;
        w.m.seen = true;
        if !(w.m.pinned || w.m.pinby && w.m.main.is_some()) {
            w.m.main = w.m.default.then_some(0).or(w.m.focusing);
        }
        view::reloaded();
    }
    w.w.status_on &= c["compileStatus"] == "enable";
}
/// The byte at which there is something, as permille of the characters; never
/// within a line's end.
fn byte_at(t: &str, at: u64) -> usize {
    let all: Vec<usize> = t.char_indices().map(|c| c.0).chain([t.len()]).collect();
    let b = all[(at as usize * (all.len() - 1)) / 1000];
    if b > 0 && t[..b].ends_with('\r') && t[b..].starts_with('\n') {
        b - 1
    } else {
        b
    }
}
fn position(t: &str, b: usize) -> Value {
    let n = t[..b].matches('\n').count();
    let s = t[..b].rfind('\n').map_or(0, |i| i + 1);
    json!({"line": n, "character": units(&t[s..b])})
}
fn edits(f: usize, list: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    for e in list {
        let t = w().m.docs[f].open.clone().unwrap();
        let ins = e["t"].as_str().unwrap();
        if e["full"] == true {
            out.push(json!({"text": ins}));
            w().m.docs[f].open = Some(ins.into());
            continue;
        }
        let (mut a, mut b) = (byte_at(&t, e["a"].as_u64().unwrap()), byte_at(&t, e["b"].as_u64().unwrap()));
        if e["line"] == true {
            // whole lines, as when one is deleted or moved
            a = t[..a].rfind('\n').map_or(0, |i| i + 1);
            b = t[b..].find('\n').map_or(t.len(), |i| b + i + 1);
        }
        let (start, mut end) = (position(&t, a), position(&t, b));
        let over = e["over"].as_u64().unwrap();
        if over > 0 && (b == t.len() || t[b..].starts_with(['\n', '\r'])) {
            // beyond the end of the line, or of the document
            hit(P::positions_out_of_bounds);
            if b == t.len() && over > 1 {
                end = json!({"line": end["line"].as_u64().unwrap() + over, "character": 0});
            } else {
                end["character"] = json!(end["character"].as_u64().unwrap() + over);
            }
        }
        out.push(json!({"range": {"start": start, "end": end}, "text": ins}));
        w().m.docs[f].open = Some(format!("{}{ins}{}", &t[..a], &t[b..]));
    }
    out
}
fn post(i: Option<u64>, k: notify::EventKind) {
    if let Some(i) = i {
        ino::post(i, k);
    }
}
/// The disk changes, and the kernel notes it, at once.
fn at_once(f: impl FnOnce()) {
    simrt::quiet(f);
    simrt::wake_all(KERNEL);
}
fn put(f: usize, t: &str) {
    w().m.docs[f].disk = Some(t.into());
    at_once(|| {
        let (p, tmp) = (path(f), root().join("tmp"));
        let i = std::fs::metadata(&p).ok().map(|m| m.ino());
        std::fs::write(&tmp, t).unwrap();
        std::fs::rename(&tmp, &p).unwrap();
        post(i, ino::metadata());
        post(i, ino::removed());
    });
}

fn op(op: &Value) {
    simrt::sleep(op["wait"].as_u64().unwrap() * MS);
    let f = op["f"].as_u64().unwrap_or(0) as usize;
    let s = op["s"].as_u64().unwrap_or(0);
    let k = op["k"].as_str().unwrap();
    let open = w().m.docs[f].open.clone();
    let id = json!({"uri": uri(f)});
    say(format_args!("the editor: {op}"));
    w().w.asks += matches!(k, "query" | "export" | "format" | "pjump") as usize;
    if k.starts_with('p') && k != "pinMain" {
        return view::op(op);
    }
    match k {
        "open" if open.is_none() => {
            let have = w().m.docs[f].disk.clone();
            let t = have.filter(|_| s % 3 != 0).unwrap_or_else(|| text(s, f == 3));
            w().m.docs[f].open = Some(t.clone());
            memory();
            implicit(f, false);
            notify_("textDocument/didOpen", json!({"textDocument": {"uri": uri(f), "languageId": "typst", "version": 1, "text": t}}));
            hit(P::documents_opened);
        }
        "change" if open.is_some() => {
            let e = edits(f, op["edits"].as_array().unwrap());
            memory();
            notify_("textDocument/didChange", json!({"textDocument": {"uri": uri(f), "version": 2}, "contentChanges": e}));
            hit(P::documents_edited);
        }
        "full" if open.is_some() => {
            let t = text(s, f == 3);
            w().m.docs[f].open = Some(t.clone());
            memory();
            notify_("textDocument/didChange", json!({"textDocument": {"uri": uri(f), "version": 2}, "contentChanges": [{"text": t}]}));
        }
        "close" if open.is_some() => {
            w().m.docs[f].open = None;
            memory();
            w().w.closed += 1;
            cool(f);
            notify_("textDocument/didClose", json!({"textDocument": id}));
            hit(P::documents_closed);
        }
        "save" if f != UNTITLED => {
            let (Some(t), Some(old)) = (open, w().m.docs[f].disk.clone()) else { return };
            cool(f);
            let w = w();
            w.w.saved = (old != t && w.w.disk == 0 && w.w.mem == 0).then_some(f);
            w.w.disk += 1;
            if op["late"] == true {
                notify_("textDocument/didSave", json!({"textDocument": id}));
                put(f, &t);
            } else {
                put(f, &t);
                notify_("textDocument/didSave", json!({"textDocument": id}));
            }
            hit(P::documents_saved);
        }
        "disk" if f != UNTITLED && w().m.docs[f].disk.is_some() => {
            w().w.disk += 1;
            w().w.saved = None;
            cool(f);
            put(f, &text(s, f == 3));
            hit(P::files_changed_on_disk);
        }
        "rm" if f != UNTITLED && w().m.docs[f].disk.is_some() => {
            w().w.disk += 1;
            w().w.saved = None;
            cool(f);
            w().m.docs[f].disk = None;
            at_once(|| {
                let i = std::fs::metadata(path(f)).ok().map(|m| m.ino());
                std::fs::remove_file(path(f)).unwrap();
                post(i, ino::metadata());
                post(i, ino::removed());
            });
        }
        "focusMain" => {
            let to = (op["null"] != true).then_some(f);
            w().m.manual = true;
            focus(to);
            command("tinymist.focusMain", json!([to.map(path)]), Expect::Null);
        }
        "pinMain" => {
            let to = (op["null"] != true).then_some(f);
            let m = &mut w().m;
            m.pinned = to.is_some();
            let to2 = to.or(m.default.then_some(0)).or(m.focusing);
            set_main(to2);
            command("tinymist.pinMain", json!([to.map(path)]), Expect::Null);
        }
        "config" => {
            let mut c = op["set"].clone();
            if w().m.default {
                c["typstExtraArgs"] = json!(["main.typ"]);
            }
            c["systemFonts"] = json!(false);
            w().m.wanted = c.clone();
            if op["pull"] == true {
                w().m.pulls += 1;
                notify_("workspace/didChangeConfiguration", json!({"settings": null}));
            } else {
                if op["hasty"] != true || !view::hasty() {
                    view::settle();
                }
                configure(&c);
                notify_("workspace/didChangeConfiguration", json!({"settings": c}));
                view::settle();
            }
            hit(P::settings_changed);
        }
        "query" => query(f, &QUERIES[op["q"].as_u64().unwrap() as usize], op["at"].as_u64().unwrap()),
        "format" => {
            let e = match (&open, w().m.cfg["formatterMode"].as_str()) {
                _ if w().m.pulls > 0 => Expect::Any,
                (_, None | Some("disable")) => Expect::Null,
                (Some(t), _) => Expect::Format { text: t.clone() },
                (None, _) => Expect::Error,
            };
            request("textDocument/formatting", json!({"textDocument": id, "options": {"tabSize": 2, "insertSpaces": true}}), format!("formatting of {f}"), e);
        }
        "export" if f < 3 => {
            let (cmd, ext, head) = EXPORTS[op["q"].as_u64().unwrap() as usize];
            let o = outcome(f);
            let known = o.deps.iter().all(|f| w().m.docs[*f].open.is_some() || !w().cold.contains(f));
            w().asked.extend(o.deps);
            w().w.exports.entry((f, ext.into())).or_default().push(o.text.map(|t| if head.is_empty() { t } else { format!("{head}{t}%end") }));
            command(cmd, json!([path(f), {"page": {"merged": {"gap": null}}}]), if known { Expect::Export { f, kind: ext.into() } } else { Expect::Any });
        }
        "rest" => {
            rest();
            check();
        }
        _ => {}
    }
}
fn query(f: usize, (method, name, syntax, pos): &(&str, &str, bool, bool), at: u64) {
    let open = w().m.docs[f].open.clone();
    let id = json!({"uri": uri(f)});
    let t = open.clone().unwrap_or_default();
    let b = byte_at(&t, at);
    let p = position(&t, b);
    let r = json!({"start": p, "end": p});
    if matches!(*name, "Hover" | "FoldingRange" | "SemanticTokensFull") {
        implicit(f, true);
    }
    let m = &w().m;
    let main = if m.pinned { m.main.unwrap() } else { m.main.filter(|_| m.pinby).unwrap_or(f) };
    let mut what = json!({"query": name});
    if open.is_some() {
        what["text"] = json!(t);
        what["byte"] = if *pos { json!(b) } else { Value::Null };
    }
    if !syntax {
        what["main"] = json!(format!("{:?}", VirtualPath::new(vpath(main))));
        if let Some(t) = &w().m.docs[main].open {
            what["mainText"] = json!(t);
        }
        w().asked.insert(f);
        w().asked.extend(outcome(main).deps);
    }
    let expect = match open {
        None if *syntax => Expect::Error,
        // what was closed is only dropped when the disk has been looked at
        _ if !syntax && w().w.closed > 0 => Expect::Any,
        _ => Expect::Query { what },
    };
    let params = match *name {
        "SelectionRange" => json!({"textDocument": id, "positions": [p]}),
        "OnEnter" | "InlayHint" => json!({"textDocument": id, "range": r}),
        "CodeAction" => json!({"textDocument": id, "range": r, "context": {"diagnostics": []}}),
        "References" => json!({"textDocument": id, "position": p, "context": {"includeDeclaration": true}}),
        "Rename" => json!({"textDocument": id, "position": p, "newName": "n"}),
        _ if *pos => json!({"textDocument": id, "position": p}),
        _ => json!({"textDocument": id}),
    };
    request(method, params, format!("{name} in {f}"), expect);
}

/// Something came from the server.
fn incoming(v: Value) {
    say(format_args!("the server: {v}"));
    let w = w();
    let method = v["method"].as_str();
    if let Some(m) = method {
        view::incoming(m, &v["params"]);
    }
    match (method, v.get("id")) {
        (Some(m), Some(id)) => {
            let result = match m {
                "workspace/configuration" => {
                    hit(P::settings_asked_for);
                    let c = w.m.wanted.clone();
                    w.m.pulls = w.m.pulls.saturating_sub(1);
                    configure(&c);
                    let items = v["params"]["items"].as_array().unwrap();
                    let all: Vec<Value> = items
                        .iter()
                        .map(|i| {
                            let s = i["section"].as_str().unwrap_or("");
                            s.strip_prefix("tinymist.").map_or(Value::Null, |s| c[s].clone())
                        })
                        .collect();
                    json!(all)
                }
                _ => Value::Null,
            };
            send(json!({"jsonrpc": "2.0", "id": id, "result": result}));
        }
        (Some("textDocument/publishDiagnostics"), None) => {
            let u = v["params"]["uri"].as_str().unwrap();
            let list = v["params"]["diagnostics"].as_array().unwrap().clone();
            match (0..NF).find(|f| uri(*f) == u) {
                Some(f) => {
                    hit(P::diagnostics_published);
                    w.diags.insert(f, list);
                }
                None if list.is_empty() => {}
                None => viol(&["V03"], "elsewhere", &format!("diagnostics are published for {u}")),
            }
        }
        (Some("tinymist/compileStatus"), None) => {
            w.statuses += 1;
            w.status = Some(v["params"].clone());
        }
        (Some(_), None) => {}
        (None, Some(id)) => {
            let Some(r) = id.as_i64().and_then(|i| w.reqs.remove(&i)) else {
                return viol(&["V04"], "answer", &format!("an answer to {id}, which was not asked"));
            };
            answer(r, &v);
        }
        _ => viol(&["V04"], "answer", &format!("a strange message {v}")),
    }
}
fn answer(r: Req, v: &Value) {
    let Req { what, expect, .. } = r;
    let err = v.get("error").filter(|e| !e.is_null());
    match expect {
        Expect::Any => {}
        Expect::Start { tab } => view::started(tab, v),
        Expect::Kill { tab } => view::killed(tab, err),
        Expect::Error if err.is_none() => viol(&["V04"], "answer", &format!("{what}, which is not open, was answered {v}")),
        Expect::Error => {}
        Expect::Export { f, kind } => {
            let w = w();
            whole(f, &kind);
            if w.w.disk > 0 || w.w.closed > 0 {
                return;
            }
            if err.is_some() && w.faulty {
                hit(P::exports_failed);
                return;
            }
            let want = w.w.exports.get(&(f, kind.clone())).cloned().unwrap_or_default();
            let Some(e) = err else {
                let to = path(f).with_extension(&kind);
                if v["result"] != json!(to) {
                    return viol(&["V05"], "export", &format!("the export of {f} as {kind} was answered {v}"));
                }
                let got = simrt::quiet(|| std::fs::read(&to).ok().map(|b| String::from_utf8_lossy(&b).into_owned()));
                hit(P::exports_checked);
                if !want.iter().any(|t| t.is_some() && *t == got) {
                    viol(&["V05"], "export", &format!("the export of {f} as {kind} is {got:?}, the documents make {want:?}"));
                }
                return;
            };
            if want.iter().all(|t| t.is_some()) {
                viol(&["V05"], "export", &format!("the export of {f} as {kind} fails: {e}"));
            }
        }
        _ if err.is_some() => viol(&["V04"], "answer", &format!("{what} fails: {v}")),
        Expect::Null if !v["result"].is_null() => viol(&["V04"], "answer", &format!("{what} was answered {v}")),
        Expect::Null => {}
        Expect::Query { what: want } => {
            hit(P::queries_checked);
            for (k, want) in want.as_object().unwrap() {
                if v["result"][k] != *want {
                    return viol(&["V04"], "query", &format!("{what}: {k} is {} where it should be {want}", v["result"][k]));
                }
            }
        }
        Expect::Format { text } => {
            let want = stub_misc_formatted(&text);
            let mut got = text.clone();
            let list = v["result"].as_array().cloned().unwrap_or_default();
            if list.len() > 1 {
                return viol(&["V04"], "format", &format!("several edits: {v}"));
            }
            hit(P::formattings_checked);
            for e in &list {
                let (a, b) = (offset(&text, &e["range"]["start"]), offset(&text, &e["range"]["end"]));
                let (Some(a), Some(b)) = (a, b) else {
                    return viol(&["V04"], "format", &format!("{text:?} has no {}", e["range"]));
                };
                if a > b {
                    return viol(&["V04"], "format", &format!("{text:?} has {} backwards", e["range"]));
                }
                got = format!("{}{}{}", &text[..a], e["newText"].as_str().unwrap_or(""), &text[b..]);
            }
            if got != want {
                viol(&["V04"], "format", &format!("{text:?} is formatted to {got:?} rather than {want:?} by {v}"));
            }
        }
        Expect::Init => {
            let w = w();
            w.utf8 = v["result"]["capabilities"]["positionEncoding"] == "utf-8";
            w.inited = true;
            simrt::wake_all(ANSWER);
        }
        Expect::Shutdown => {}
    }
}
fn stub_misc_formatted(t: &str) -> String {
    typstyle_core::formatted(t)
}
fn offset(t: &str, p: &Value) -> Option<usize> {
    let mut s = 0;
    for _ in 0..p["line"].as_u64()? {
        s += t[s..].find('\n')? + 1;
    }
    let l = lines(&t[s..])[0];
    let n = p["character"].as_u64()? as usize;
    // also beyond the line's end proper, if it is a CRLF's middle
    let i = l.char_indices().map(|c| c.0).chain([l.len()]).find(|i| units(&l[..*i]) == n)?;
    Some(s + i)
}
/// What is exported is a whole export, whatever failed.
fn whole(f: usize, ext: &str) {
    if ext == "txt" {
        return;
    }
    let to = path(f).with_extension(ext);
    let Some(got) = simrt::quiet(|| std::fs::read(&to).ok()) else { return };
    if !got.starts_with(format!("{ext}:").as_bytes()) || !got.ends_with(b"%end") {
        viol(&["V05"], "whole", &format!("{to:?} is not a whole export: {:?}", String::from_utf8_lossy(&got)));
    }
}
fn check() {
    let w = w();
    for f in 0..UNTITLED {
        for ext in ["pdf", "svg", "html", "md", "png"] {
            whole(f, ext);
        }
    }
    let win = std::mem::take(&mut w.w);
    let main = w.m.main;
    let o = main.map(outcome);
    let others: Vec<Outcome> = view::others().into_iter().map(outcome).collect();
    view::check(&win);
    simrt::hist(&simrt::quiet(|| format!("rest {:?} {:?}", main, o.as_ref().map(|o| &o.text))));
    hit(P::states_checked);
    // diagnostics
    let (mut must, mut may) = (BTreeMap::new(), BTreeMap::new());
    if let (Some(o), true) = (&o, w.m.seen) {
        (must, may) = (o.diags.clone(), o.lints.clone());
    }
    for o in &others {
        for (to, from) in [(&mut must, &o.diags), (&mut may, &o.lints)] {
            for (f, l) in from {
                to.entry(*f).or_default().extend(l.clone());
            }
        }
    }
    if !others.is_empty() {
        // each project may have looked for problems in what was asked for
        for f in &w.asked {
            if let Some(l) = may.get_mut(f) {
                let mut once: Vec<Value> = vec![];
                l.drain(..).for_each(|d| if !once.contains(&d) { once.push(d) });
                *l = (0..=others.len()).flat_map(|_| once.clone()).collect();
            }
        }
    }
    let sorted = |l: Vec<Value>| {
        let mut l: Vec<String> = l.into_iter().map(|v| v.to_string()).collect();
        l.sort();
        l
    };
    let mut got: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for (f, l) in &w.diags {
        if l.is_empty() {
            continue;
        }
        let mut l = l.clone();
        if w.asked.contains(f) && !o.iter().chain(&others).any(|o| o.deps.contains(f)) {
            // may be looked for problems, too
            l.retain(|d| d["severity"] != 2 || !d["relatedInformation"].is_null());
        }
        if l.is_empty() {
            continue;
        }
        for d in &mut l {
            d["message"] = json!(stripped(d["message"].as_str().unwrap_or("")));
        }
        got.insert(*f, sorted(l));
    }
    let all = |lints: bool| {
        let mut m: BTreeMap<usize, Vec<Value>> = must.clone();
        if lints {
            for (f, l) in &may {
                m.entry(*f).or_default().extend(l.clone());
            }
        }
        m.into_iter().map(|(f, l)| (f, sorted(l))).collect::<BTreeMap<_, _>>()
    };
    // each project may have looked for problems
    let between = |got: &BTreeMap<usize, Vec<String>>| {
        let (low, high) = (all(false), all(true));
        let within = |a: &Vec<String>, b: &Vec<String>| {
            let mut b = b.clone();
            a.iter().all(|x| b.iter().position(|y| x == y).map(|i| b.remove(i)).is_some())
        };
        let none = vec![];
        low.iter().all(|(f, l)| within(l, got.get(f).unwrap_or(&none))) && got.iter().all(|(f, l)| within(l, high.get(f).unwrap_or(&none)))
    };
    if got != all(false) && got != all(true) && (others.is_empty() || !between(&got)) {
        viol(&["V03"], "diagnostics", &format!("with main {main:?} the published diagnostics are {got:?}, the documents have {:?} and may have {may:?}; the documents are {:?}", all(false), texts()));
    }
    hit(P::diagnostics_checked);
    // status
    let enabled = win.status_on && w.m.cfg["compileStatus"] == "enable";
    let compiled = w.m.seen && o.as_ref().is_some_and(|o| o.text != win.render) && main == win.main;
    if enabled && win.status_on && win.cfgs == 0 && win.reloads == 0 && compiled && w.statuses == 0 {
        viol(&["V03"], "status", &format!("no status was sent of {main:?}, which was compiled: {:?}", o.as_ref().map(|o| &o.text)));
    }
    w.fresh = enabled && (w.fresh || w.statuses > 0);
    w.statuses = 0;
    if w.fresh && w.m.seen {
        let s = w.status.clone().unwrap();
        let (st, p, n) = match (&o, main) {
            (Some(o), Some(m)) => (if o.text.is_some() { "compileSuccess" } else { "compileError" }, vpath(m), o.pages),
            _ => ("compileSuccess", String::new(), 0),
        };
        hit(P::statuses_checked);
        if s["status"] != st || s["path"] != json!(p) || s["pageCount"] != json!(n) {
            viol(&["V03"], "status", &format!("the status is {s} where it should be {st}, {p}, {n}"));
        }
        if let Some(t) = o.as_ref().and_then(|o| o.text.as_ref()) {
            if win.render.as_ref() != Some(t) && win.mem > 0 && win.reloads == 0 && s["wordsCount"]["chars"] != json!(t.chars().count()) {
                viol(&["V03"], "words", &format!("the words of {t:?} are counted as {}", s["wordsCount"]));
            }
        }
    }
    // what is exported by itself
    if let (Some(o), Some(m)) = (&o, main.filter(|m| *m < 3)) {
        let only = !w.faulty && o.deps.is_disjoint(&w.cold) && win.closed == 0 && win.cfgs == 0 && win.reloads == 0;
        let changed = win.render.as_ref() != o.text.as_ref() || win.main != main;
        let due = match w.m.cfg["exportPdf"].as_str() {
            _ if !w.m.seen => false,
            Some("onType") => only && win.disk == 0 && changed,
            Some("onSave") => {
                only && (win.disk == 0 && win.mem == 0 && win.main != main
                    || win.disk == 1 && win.mains == 0 && win.saved.is_some_and(|f| win.deps.contains(&f) && o.deps.contains(&f)))
            }
            _ => false,
        };
        if let (true, Some(t)) = (due, &o.text) {
            let to = path(m).with_extension("pdf");
            let got = simrt::quiet(|| std::fs::read_to_string(&to).ok());
            hit(P::pdfs_checked);
            if got != Some(format!("pdf:{t}%end")) {
                viol(&["V05"], "pdf", &format!("{to:?} is {got:?}, the documents make {t:?}; exportPdf is {}", w.m.cfg["exportPdf"]));
            }
        }
    }
    // nothing is compiled, and watched, before the first event
    let o = o.filter(|_| w.m.seen);
    w.cold.extend(win.touched);
    for o in o.iter().chain(&others) {
        w.cold.retain(|f| !o.deps.contains(f));
    }
    w.w = Window {
        render: o.as_ref().and_then(|o| o.text.clone()),
        deps: o.into_iter().chain(others).flat_map(|o| o.deps).collect(),
        main,
        status_on: w.m.cfg["compileStatus"] == "enable",
        ..Window::default()
    };
}
fn texts() -> Vec<Option<String>> {
    w().m.docs.iter().map(|d| d.text().map(|t| t.to_string())).collect()
}
/// Waits until everything has come to rest.
fn rest() {
    let mut calm = 0;
    let mut rounds = 0;
    while calm < 2 {
        let h = simrt::now() + 300 * MS;
        wait_idle(h);
        let w = w();
        if w.done.is_some() {
            return viol(all(), "exit", &format!("the server ended by itself: {:?}", w.done));
        }
        calm = if simrt::now() <= h + MS && ino::pending() == 0 && w.outbox.is_empty() && w.pausing == 0 && view::idle() { calm + 1 } else { 0 };
        rounds += 1;
        if rounds > 1000 {
            return viol(all(), "restless", "the server does not come to rest");
        }
    }
    if let Some(r) = w().reqs.values().min_by_key(|r| r.sent) {
        viol(&["V04"], "unanswered", &format!("{} was never answered", r.what));
    }
}

fn server(workers: usize) {
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(workers)
        .max_blocking_threads(4)
        .thread_keep_alive(std::time::Duration::from_secs(100_000))
        .enable_time()
        .build()
        .unwrap();
    let h = rt.handle().clone();
    let res = transport::with_stdio_transport::<LspMessage>(Default::default(), |conn| {
        let client = LspClientRoot::new(h, conn.sender);
        ServerState::install_lsp(LspBuilder::new(
            RegularInit { client: client.weak().to_typed(), font_opts: Default::default(), exec_cmds: vec![] },
            client.weak(),
        ))
        .build()
        .start(conn.receiver, false)
    });
    rt.shutdown_background();
    w().done = Some(res.map_err(|e| format!("{e:?}")));
    w().stdin.as_ref().unwrap().close_read();
    w().stdout.as_ref().unwrap().kill_writer();
    simrt::wake_all(ANSWER);
}

pub fn run_editor(cfg: &Value) {
    hook(if cfg["preview"].is_array() { SEEN } else { ALL });
    *W.get() = Some(World::default());
    let s = w();
    rayon::sim::WORKERS.store(cfg["rayon"].as_u64().unwrap_or(2) as usize, std::sync::atomic::Ordering::Relaxed);
    s.pauses = cfg["pause"].as_array().unwrap().iter().map(|l| l.as_u64().unwrap()).collect();
    let (stdin, stdout) = (Pipe::new(1 << 16), Pipe::new(1 << 16));
    (s.stdin, s.stdout) = (Some(stdin.clone()), Some(stdout.clone()));
    simrt::quiet(|| {
        std::fs::create_dir_all(root().join("sub")).unwrap();
        std::fs::create_dir_all(root().join("fonts")).unwrap();
        *ino::NOW.lock().unwrap() = Some(simrt::now);
        *typst::sim::PAUSE.lock().unwrap() = Some(pause);
        for f in 0..NF {
            let there = f != UNTITLED && cfg["missing"].as_u64().unwrap() & 1 << f == 0;
            let t = there.then(|| text(cfg["text"].as_u64().unwrap() + f as u64, f == 3));
            if let Some(t) = &t {
                std::fs::write(path(f), t).unwrap();
            }
            w().m.docs.push(Doc { open: None, disk: t });
        }
    });
    simrt::pipe::install_stdio(stdin.clone(), stdout.clone());
    let browsers = view::setup(cfg);
    let workers = cfg["workers"].as_u64().unwrap_or(2) as usize;
    let srv = std::thread::spawn(move || server(workers));
    let lat: Vec<u64> = cfg["lat"].as_array().unwrap().iter().map(|l| l.as_u64().unwrap()).collect();
    let kernel = std::thread::spawn(move || {
        let mut i = 0;
        while !w().stop {
            if ino::pending() == 0 {
                simrt::block_on(KERNEL);
                continue;
            }
            simrt::sleep(lat[i % lat.len()] * MS);
            i += 1;
            ino::deliver();
        }
    });
    let out = stdin.clone();
    let writer = std::thread::spawn(move || loop {
        let Some(v) = w().outbox.pop_front() else {
            if w().closed {
                break;
            }
            simrt::block_on(OUTBOX);
            continue;
        };
        let b = v.to_string();
        if !out.put(format!("Content-Length: {}\r\n\r\n{b}", b.len()).as_bytes()) {
            break;
        }
    });
    let reader = std::thread::spawn(move || {
        let mut buf: Vec<u8> = vec![];
        loop {
            let b = stdout.take(1 << 16);
            if b.is_empty() {
                break;
            }
            buf.extend(b);
            loop {
                match parse_frame(&buf) {
                    Ok(Some((v, n))) => {
                        buf.drain(..n);
                        incoming(v);
                    }
                    Ok(None) => break,
                    Err(e) => return viol(all(), "framing", &e),
                }
            }
        }
    });
    // the session
    let mut c = cfg["cfg"].clone();
    s.m.default = cfg["default"] == true;
    s.m.main = s.m.default.then_some(0);
    if s.m.default {
        c["typstExtraArgs"] = json!(["main.typ"]);
    }
    c["systemFonts"] = json!(false);
    s.m.cfg = c.clone();
    s.m.wanted = c.clone();
    s.w.status_on = c["compileStatus"] == "enable";
    s.w.main = s.m.main;
    let dynamic = cfg["dynamic"].as_u64().unwrap();
    let mut caps = json!({"workspace": {"configuration": cfg["plain"] != true, "didChangeConfiguration": {"dynamicRegistration": true}},
        "textDocument": {"semanticTokens": {"dynamicRegistration": dynamic & 1 != 0, "requests": {}, "tokenTypes": [], "tokenModifiers": [], "formats": []},
            "formatting": {"dynamicRegistration": dynamic & 2 != 0}}});
    match cfg["enc"].as_u64().unwrap() {
        1 => caps["general"] = json!({"positionEncodings": ["utf-16"]}),
        2 => caps["general"] = json!({"positionEncodings": ["utf-8", "utf-16"]}),
        3 => caps["general"] = json!({"positionEncodings": ["utf-16", "utf-8"]}),
        _ => {}
    }
    let dir = lsp_types::Url::from_file_path(root()).unwrap().to_string();
    let mut init = json!({"processId": null, "rootUri": dir, "capabilities": caps,
        "initializationOptions": if cfg["namespaced"] == true { json!({"tinymist": c}) } else { c }});
    if cfg["folders"] == true {
        init["workspaceFolders"] = json!([{"uri": dir, "name": "ws"}]);
    }
    request("initialize", init, "initialize".into(), Expect::Init);
    while !w().inited && w().done.is_none() {
        simrt::block_on(ANSWER);
    }
    notify_("initialized", json!({}));
    s.faulty = cfg["calm"].as_u64().is_some();
    for (i, o) in cfg["ops"].as_array().unwrap().iter().enumerate() {
        if s.faulty && i as u64 >= cfg["calm"].as_u64().unwrap() {
            rest();
            check();
            simrt::faults_off();
            s.faulty = false;
        }
        op(o);
    }
    rest();
    check();
    w().closed = true;
    request("shutdown", Value::Null, "shutdown".into(), Expect::Shutdown);
    notify_("exit", Value::Null);
    let _ = writer.join();
    let _ = srv.join();
    let _ = reader.join();
    if !matches!(w().done, Some(Ok(()))) {
        viol(all(), "exit", &format!("the server ends with {:?}", w().done));
    }
    if let Some(r) = w().reqs.values().next() {
        viol(&["V04"], "unanswered", &format!("{} was never answered", r.what));
    }
    w().stop = true;
    simrt::wake_all(KERNEL);
    view::stop();
    let _ = kernel.join();
    let _ = browsers.join();
}

pub fn parse_frame(b: &[u8]) -> Result<Option<(Value, usize)>, String> {
    const H: &[u8] = b"Content-Length: ";
    let Some(e) = b.windows(4).position(|x| x == b"\r\n\r\n") else { return Ok(None) };
    let n = b[..e].strip_prefix(H).and_then(|n| std::str::from_utf8(n).ok()?.parse::<usize>().ok());
    let n = n.ok_or_else(|| format!("a bad header {:?}", String::from_utf8_lossy(&b[..e])))?;
    if b.len() < e + 4 + n {
        return Ok(None);
    }
    let v = serde_json::from_slice(&b[e + 4..e + 4 + n]).map_err(|e| format!("a bad payload: {e}"))?;
    Ok(Some((v, e + 4 + n)))
}
