//! One simulated session: a real server on real stdio transport threads, a
//! scripted client at the other end of the pipes, and the recorded history.
use crate::probes::{hit, P};
use serde::Deserialize;
use serde_json::{json, Value};
use simrt::pipe::Pipe;
use std::collections::VecDeque;
use sync_ls::*;

pub use crate::util::Racy;

#[derive(Debug, Clone)]
pub enum Ev {
    /// The i-th client message is completely on the wire.
    Wire(usize),
    Init(bool),
    /// A handler was called: 'r'equest, 'n'otification, 'c'ommand, 'R'esource.
    Disp(char, u64),
    EvSent(u64, u64),
    /// An event handler ran: source, sequence number, service ready.
    EvDisp(u64, u64, bool),
    /// Origin 0 is the main loop, others are tasks: (origin, tag).
    Emit(u64, u64),
    /// The main loop is about to answer in place.
    RespMain(Value),
    /// The server sends a request: its tag.
    Ask(u64, u64),
    /// A response handler ran: own tag, tag in the response.
    Handled(u64, Option<u64>),
    Done(u64),
    Out(Value),
    LoopEnd(bool),
    Panic(String),
}

pub struct World {
    pub ev: Vec<Ev>,
    pub dap: bool,
    /// the handler of shutdown takes parameters
    pub raw_down: bool,
    pub stdin: Pipe,
    pub stdout: Pipe,
    pub main_done: Option<Result<(), String>>,
    /// Messages from the client, in wire order.
    pub wire: Vec<Value>,
    pub wire_busy: bool,
    pub gates: Vec<u64>,
    pub answers: VecDeque<Value>,
    pub answers_closed: bool,
    pub asks_seen: Vec<(Value, u64, String)>,
    pub frame_err: Option<String>,
    pub out_partial: usize,
    pub out_bytes: Vec<u8>,
    pub reader_gone: bool,
    pub responder_gone: bool,
    pub sources_left: usize,
    pub next_ask: u64,
    pub chunks: bool,
    pub reader_stall: u64,
    pub init_done: bool,
    pub in_bytes: Vec<u8>,
    pub init_gate: Option<u64>,
    /// Where each message of `wire` ends in `in_bytes`.
    pub wire_end: Vec<usize>,
    pub may_panic: bool,
    /// further properties a panic violates
    pub panic_props: Vec<&'static str>,
    pub loop_end: u64,
    pub done_at: u64,
}
static WORLD: Racy<Option<World>> = Racy(std::cell::UnsafeCell::new(None));
pub fn w() -> &'static mut World {
    WORLD.get().as_mut().unwrap()
}
pub fn ev(e: Ev) {
    use std::hash::{Hash, Hasher};
    // The history is part of what a replay has to reproduce.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    match &e {
        Ev::Out(v) => v.to_string().hash(&mut h),
        e => format!("{e:?}").hash(&mut h),
    }
    simrt::sched::mix(h.finish());
    if simrt::shm::shm().trace != 0 {
        simrt::sched::trace(format_args!("event {e:?}"));
    }
    w().ev.push(e);
}

const WIRE: u64 = 0x0100_0000_0000_0001;
const ANSWERS: u64 = 0x0100_0000_0000_0002;
static GATE_N: tokio::sync::Notify = tokio::sync::Notify::const_new();
pub const SRC: u64 = 0x0100_0000_0000_0004;

pub fn new_world(dap: bool, cfg: &Value) {
    let cap_in = cfg["cap_in"].as_u64().unwrap_or(65536) as usize;
    let cap_out = cfg["cap_out"].as_u64().unwrap_or(65536) as usize;
    let (i, o) = (Pipe::new(cap_in), Pipe::new(cap_out));
    simrt::pipe::install_stdio(i.clone(), o.clone());
    *WORLD.get() = Some(World {
        ev: vec![],
        dap,
        raw_down: cfg["raw_down"] == true,
        stdin: i,
        stdout: o,
        main_done: None,
        wire: vec![],
        wire_busy: false,
        gates: vec![],
        answers: VecDeque::new(),
        answers_closed: false,
        asks_seen: vec![],
        frame_err: None,
        out_partial: 0,
        out_bytes: vec![],
        reader_gone: false,
        responder_gone: false,
        sources_left: 0,
        next_ask: 1_000_000,
        chunks: cfg["chunks"].as_bool().unwrap_or(false),
        reader_stall: cfg["reader_stall"].as_u64().unwrap_or(0),
        init_done: false,
        in_bytes: vec![],
        init_gate: None,
        wire_end: vec![],
        may_panic: false,
        panic_props: vec![],
        loop_end: 0,
        done_at: 0,
    });
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit("/crates/").next().unwrap_or(""), l.line()));
        let m = format!("{} at {}", m, l.unwrap_or_default());
        if !simrt::live() || simrt::sched::tid() == 0 {
            simrt::harness_error(&format!("the harness panicked: {m}"));
        }
        ev(Ev::Panic(m.clone()));
        if w().may_panic {
            return;
        }
        let mut p: Vec<&str> = if w().dap { vec!["D01"] } else { vec!["L10", "L01"] };
        p.extend(&w().panic_props);
        crate::core::viol(&p, "panic", &format!("a server thread panicked: {m}"));
    }));
}

// ---- the client side ------------------------------------------------------------

pub fn frame(v: &Value, style: u64) -> Vec<u8> {
    let style = style % 16;
    let b = match style {
        // white space around and inside the body is part of it
        11 => format!("{v}\r\n \n"),
        12 => format!(" \n{v}"),
        13 => format!("{v:#}\n"),
        14 | 15 => {
            let mut o = String::new();
            let mut q = [0u16; 2];
            for c in v.to_string().chars() {
                if c.is_ascii() {
                    o.push(c);
                } else {
                    for u in c.encode_utf16(&mut q) {
                        o.push_str(&format!("\\u{u:04x}"));
                    }
                }
            }
            o
        }
        _ => v.to_string(),
    }
    .into_bytes();
    let n = b.len();
    let h = match style {
        1 => format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {n}\r\n\r\n"),
        2 => format!("Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n"),
        3 => format!("content-length: {n}\r\n\r\n"),
        6 => format!("X-Request-Correlation-Id: abc\r\nContent-Length: {n}\r\nX-Request-Correlation-Check: abd\r\n\r\n"),
        7 => format!("A: 1\r\nB: 2\r\nX-Originating-Transport-Session: {}\r\nContent-Length: {n}\r\nD: 4\r\n\r\n", "x".repeat(300)),
        8 => format!("CONTENT-LENGTH: {n}\r\n\r\n"),
        9 => format!("X-Empty: \r\nContent-Length: {n}\r\nX-Content-Length: 1\r\n\r\n"),
        10 => format!("Content-Length: {n:06}\r\n\r\n"),
        12 => format!("X-Trace: {}\r\nContent-Length: {n}\r\nX-Trace: {}\r\n\r\n", "a".repeat(5000), "é: ".repeat(1500)),
        13 => (0..40).map(|i| format!("X-{i}: {i}\r\n")).collect::<String>() + &format!("Content-Length: {n}\r\n\r\n"),
        4 => format!("X-Trace: a: b: c\r\nContent-Length: {n}\r\nX-Of: Content-Length: 3\r\nContent-Lengths: 5\r\n\r\n"),
        _ => format!("Content-Length: {n}\r\n\r\n"),
    };
    let mut o = h.into_bytes();
    o.extend(b);
    o
}
fn put(b: &[u8]) -> bool {
    let w = w();
    let mut b = b;
    w.in_bytes.extend(b);
    while w.chunks && b.len() > 1 {
        let k = simrt::fault(simrt::sched::F_CHUNK, b.len().min(200) as u64) as usize;
        if k == 0 {
            break;
        }
        if !w.stdin.put(&b[..k]) {
            return false;
        }
        b = &b[k..];
        simrt::sleep(1_000 * (k as u64 % 7) * (k as u64 % 7));
    }
    w.stdin.put(b)
}
/// Sends one message; the client writes messages one at a time.
pub fn send(v: Value, style: u64) -> bool {
    let w = w();
    while w.wire_busy {
        simrt::block_on(WIRE);
    }
    w.wire_busy = true;
    let i = w.wire.len();
    w.wire.push(v.clone());
    let f = frame(&v, style);
    let end = w.in_bytes.len() + f.len();
    w.wire_end.push(end);
    let ok = put(&f);
    ev(Ev::Wire(i));
    w.wire_busy = false;
    simrt::wake_all(WIRE);
    ok
}
pub fn send_raw(b: &[u8]) {
    let w = w();
    while w.wire_busy {
        simrt::block_on(WIRE);
    }
    w.wire_busy = true;
    put(b);
    w.wire_busy = false;
    simrt::wake_all(WIRE);
}
/// Stops further messages of the responder from going out, and waits for the
/// one being written.
pub fn seize_wire() {
    let w = w();
    w.answers_closed = true;
    simrt::wake_all(ANSWERS);
    while w.wire_busy {
        simrt::block_on(WIRE);
    }
    w.wire_busy = true;
}

/// Reads the server's output and checks the framing byte by byte.
pub fn client_reader() {
    let w = w();
    let mut buf: Vec<u8> = vec![];
    loop {
        let stall = simrt::fault(simrt::sched::F_STALL, 4);
        if stall != 0 {
            simrt::sleep(stall * stall * 3_000_000);
        }
        let got = w.stdout.take(if w.reader_stall > 0 { 64 } else { 4096 });
        if got.is_empty() {
            break;
        }
        if w.reader_stall > 0 {
            simrt::sleep(w.reader_stall);
        }
        w.out_bytes.extend(&got);
        buf.extend(got);
        loop {
            match parse_frame(&buf) {
                Ok(None) => break,
                Ok(Some((v, n))) => {
                    buf.drain(..n);
                    on_output(v);
                }
                Err(e) => {
                    if w.frame_err.is_none() {
                        w.frame_err = Some(e);
                    }
                    buf.clear();
                    break;
                }
            }
        }
    }
    w.out_partial = buf.len();
    w.reader_gone = true;
}
pub fn parse_frame(b: &[u8]) -> Result<Option<(Value, usize)>, String> {
    const H: &[u8] = b"Content-Length: ";
    for (i, c) in H.iter().enumerate() {
        match b.get(i) {
            None => return Ok(None),
            Some(x) if x != c => {
                return Err(format!("not a header: {:?}", String::from_utf8_lossy(&b[..b.len().min(60)])))
            }
            _ => {}
        }
    }
    let mut i = H.len();
    let mut n = 0usize;
    while let Some(c) = b.get(i) {
        if c.is_ascii_digit() {
            n = n.saturating_mul(10).saturating_add((c - b'0') as usize);
            if n > 1 << 30 {
                return Err("absurd Content-Length".into());
            }
            i += 1;
        } else {
            break;
        }
    }
    if b.len() < i + 4 {
        return Ok(None);
    }
    if i == H.len() || &b[i..i + 4] != b"\r\n\r\n" {
        return Err(format!("bad header: {:?}", String::from_utf8_lossy(&b[..b.len().min(60)])));
    }
    i += 4;
    if b.len() < i + n {
        return Ok(None);
    }
    let v: Value = serde_json::from_slice(&b[i..i + n]).map_err(|e| format!("bad payload: {e}"))?;
    if v["jsonrpc"] != "2.0" {
        return Err(format!("no jsonrpc field: {v}"));
    }
    Ok(Some((v, i + n)))
}
fn on_output(v: Value) {
    ev(Ev::Out(v.clone()));
    let w = w();
    if w.dap {
        return;
    }
    if v.get("id").is_some() && v["method"] == "sim/ask" {
        let tag = v["params"]["tag"].as_u64().unwrap_or(0);
        let how = v["params"]["how"].as_str().unwrap_or("").to_string();
        w.asks_seen.push((v["id"].clone(), tag, how));
        w.answers.push_back(v);
        simrt::wake_all(ANSWERS);
    }
}
/// Answers the server's requests, late, twice or never.
pub fn client_responder() {
    let w = w();
    loop {
        let Some(mut v) = w.answers.pop_front() else {
            if w.answers_closed {
                break;
            }
            simrt::block_on(ANSWERS);
            continue;
        };
        if w.answers_closed {
            break;
        }
        if !w.answers.is_empty() && simrt::fault(simrt::sched::F_REORDER, 2) != 0 {
            let n = w.answers.pop_front().unwrap();
            w.answers.push_front(v);
            v = n;
        }
        let (id, p) = (v["id"].clone(), v["params"].clone());
        let how = p["how"].as_str().unwrap_or("ok").to_string();
        if how == "never" {
            hit(P::server_requests_abandoned);
            continue;
        }
        let d = simrt::fault(simrt::sched::F_DELAY, 6);
        if d != 0 {
            simrt::sleep(d * d * 1_000_000);
        }
        let code = [-1, -32800, -32603, 0, -32801, 1, -32601][p["tag"].as_u64().unwrap_or(0) as usize % 7];
        let m = if how == "null" {
            json!({"jsonrpc":"2.0","id":id,"result":null})
        } else if how == "err" {
            json!({"jsonrpc":"2.0","id":id,"error":{"code":code,"message":"no","data":{"tag":p["tag"]}}})
        } else {
            json!({"jsonrpc":"2.0","id":id,"result":{"tag":p["tag"]}})
        };
        if p["tag"].as_u64().unwrap_or(0) % 5 == 2 && id.is_number() {
            // an id of another type is another id
            if w.answers_closed || !send(json!({"jsonrpc":"2.0","id":id.to_string(),"result":null}), 0) {
                break;
            }
        }
        let dup = how == "dup" || simrt::fault(simrt::sched::F_DUP, 2) != 0;
        if w.answers_closed || !send(m.clone(), 0) {
            break;
        }
        hit(P::server_requests_answered);
        if dup && !w.answers_closed {
            hit(P::duplicate_client_responses);
            send(m, 0);
        }
    }
    w.responder_gone = true;
}

// ---- the server under test ---------------------------------------------------------

pub struct Service {
    pub client: LspClient,
    pub typed: TypedLspClient<Service>,
    pub rt: tokio::runtime::Handle,
}
pub struct Args0 {
    pub client: LspClient,
    pub rt: tokio::runtime::Handle,
}
#[derive(Deserialize)]
pub struct InitParams {
    pub tag: u64,
    #[serde(default)]
    pub k: String,
    #[serde(default)]
    pub ns: u64,
    #[serde(default)]
    pub notes: u64,
    #[serde(default)]
    pub asks: u64,
    #[serde(default)]
    pub how: String,
    #[serde(default)]
    pub evs: u64,
    #[serde(default)]
    pub rnotes: u64,
}
impl Initializer for Args0 {
    type I = InitParams;
    type S = Service;
    fn initialize(self, p: InitParams) -> (Service, AnySchedulableResponse) {
        ev(Ev::Init(true));
        ev(Ev::Disp('i', p.tag));
        w().init_done = true;
        let s = Service { typed: self.client.to_typed(), client: self.client, rt: self.rt };
        effects(&s, &Act { tag: p.tag, notes: p.notes, asks: p.asks, how: p.how.clone(), evs: p.evs, rnotes: p.rnotes, ..Act::default() });
        let r = json!({"tag": p.tag, "capabilities": {}});
        let resp = match p.k.as_str() {
            "fut" => just_future(async move {
                tokio::time::sleep(std::time::Duration::from_nanos(p.ns)).await;
                ev(Ev::Done(p.tag));
                Ok(r)
            }),
            "err" => {
                ev(Ev::RespMain(json!(p.tag)));
                just_result(Err(user_err(p.tag)))
            }
            "early" => {
                ev(Ev::RespMain(json!(p.tag)));
                Err(user_err(p.tag))
            }
            _ => {
                ev(Ev::RespMain(json!(p.tag)));
                just_ok(r)
            }
        };
        (s, resp)
    }
}

#[derive(Deserialize, serde::Serialize, Clone, Debug, Default)]
pub struct Act {
    pub tag: u64,
    #[serde(default)]
    pub k: String,
    #[serde(default)]
    pub ns: u64,
    /// notifications, requests and events sent by the handler
    #[serde(default)]
    pub notes: u64,
    #[serde(default)]
    pub asks: u64,
    #[serde(default)]
    pub how: String,
    #[serde(default)]
    pub evs: u64,
    /// ... and by its future
    #[serde(default)]
    pub fnotes: u64,
    #[serde(default)]
    pub fasks: u64,
    #[serde(default)]
    pub fevs: u64,
    /// ... and by the handlers of the responses to its own requests
    #[serde(default)]
    pub rnotes: u64,
    #[serde(default)]
    pub rasks: u64,
    #[serde(default)]
    pub revs: u64,
    #[serde(default)]
    pub gate: Option<u64>,
    #[serde(default)]
    pub big: usize,
    #[serde(default)]
    pub pad: String,
}
impl Act {
    /// Some handlers send the same notification again and again.
    fn nth_note(&self, i: u64) -> u64 {
        self.tag * 100 + if self.tag % 4 == 1 { i / 50 * 50 } else { i }
    }
}
/// The codes and messages of the handlers' own errors.
pub fn err_code(tag: u64) -> i32 {
    [-32050, 0, 7, -32603, i32::MIN][tag as usize % 5]
}
pub fn err_msg(tag: u64) -> String {
    match tag % 7 {
        3 => String::new(),
        4 => format!("{}é漢字漢字漢字漢字漢字漢字\"\\\n\r\n\r\nContent-Length: 3 {tag}", "a".repeat(tag as usize % 3)),
        _ => format!("e{tag}"),
    }
}
pub fn user_err(tag: u64) -> ResponseError {
    ResponseError { code: err_code(tag), message: err_msg(tag), data: None }
}
/// A typed result; some cannot be turned into JSON.
pub struct Out(pub Value, pub bool);
impl serde::Serialize for Out {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.1 {
            hit(P::unserialisable_results);
            return Err(serde::ser::Error::custom("no JSON for this"));
        }
        self.0.serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Out {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Out(Value::deserialize(d)?, false))
    }
}
pub trait Made: serde::Serialize + 'static {
    fn made(a: &Act) -> Self;
}
impl Made for Out {
    fn made(a: &Act) -> Self {
        Out(result_of(a), a.k.ends_with("unser"))
    }
}
impl Made for Value {
    fn made(a: &Act) -> Self {
        result_of(a)
    }
}
pub fn result_of(a: &Act) -> Value {
    if a.big > 0 {
        json!({"tag": a.tag, "s": "é".repeat(a.big)})
    } else if a.tag % 9 == 4 {
        json!({"tag": a.tag, "s": "\u{0}\u{1}\u{7f}\u{2028}\u{feff}\"\\/\r\n\t\u{fffd}𝒳é", "": [null, -0.5, 1e300, i64::MIN, u64::MAX, {}, []], "Content-Length: 2": "\r\n\r\n{}"})
    } else {
        json!({"tag": a.tag})
    }
}
pub struct SimEv {
    pub src: u64,
    pub seq: u64,
    pub notes: u64,
}
pub struct SimEv2 {
    pub src: u64,
    pub seq: u64,
}
pub struct SimEvUnhandled;

struct SimEmit;
impl dapts::IEvent for SimEmit {
    const EVENT: &'static str = "sim/emit";
    type Body = Value;
}
struct Ask;
impl lsp_types::request::Request for Ask {
    const METHOD: &'static str = "sim/ask";
    type Params = Value;
    type Result = Value;
}
impl lsp_types::notification::Notification for SimEmit {
    const METHOD: &'static str = "sim/emit";
    type Params = Value;
}
/// What a notification of the server carries.
pub fn emitted(origin: u64, tag: u64) -> Value {
    match tag % 5 {
        1 => json!({"o": origin, "tag": tag, "a": null, "b": {"c": null, "": []}, "d": [null, 1.5, -1e300, u64::MAX, i64::MIN, "\u{0}\u{2028}é𝒳\r\n\r\n"]}),
        2 => json!({"tag": tag, "o": origin, "tags": {}}),
        _ => json!({"o": origin, "tag": tag}),
    }
}
pub fn emit(c: &TypedLspClient<Service>, origin: u64, tag: u64) {
    ev(Ev::Emit(origin, tag));
    let v = emitted(origin, tag);
    if w().dap {
        c.send_dap_event::<SimEmit>(v);
    } else if tag % 3 == 0 {
        c.send_notification::<SimEmit>(&v);
    } else {
        c.send_notification_(lsp::Notification { method: "sim/emit".into(), params: v });
    }
}
/// What a response handler does.
#[derive(Clone)]
struct React {
    notes: u64,
    asks: u64,
    evs: u64,
    how: String,
    /// the client's request it answers
    answer: Option<(RequestId, Act)>,
}
impl React {
    fn of(a: &Act) -> Self {
        React { notes: a.rnotes, asks: a.rasks, evs: a.revs, how: a.how.clone(), answer: None }
    }
}
/// Requests answered by the handler of a response count as gated by that handler.
pub const VIA: u64 = 1 << 40;
fn ask(c: &TypedLspClient<Service>, origin: u64, r: React) {
    if w().dap {
        return;
    }
    let tag = w().next_ask;
    w().next_ask += 1;
    ev(Ev::Ask(origin, tag));
    let p = json!({"tag": tag, "how": r.how});
    let t = c.clone();
    let h = move |resp: lsp::Response| {
        let got = resp
            .result
            .as_ref()
            .and_then(|r| r["tag"].as_u64())
            .or_else(|| resp.error.as_ref().and_then(|e| e.data.as_ref()).and_then(|d| d["tag"].as_u64()));
        ev(Ev::Handled(tag, got));
        if r.notes + r.asks + r.evs > 0 || r.answer.is_some() {
            hit(P::response_handlers_acting);
        }
        for i in 0..r.notes {
            emit(&t, 0, tag * 1000 + i);
        }
        for i in 0..r.evs {
            self_event(&t, 30_000_000 + tag, i, 0);
        }
        if let Some((id, a)) = r.answer {
            w().gates.push(VIA + a.tag);
            t.untyped().respond_result(id, Ok(result_of(&a)));
        }
        if r.asks > 0 {
            ask(&t, 0, React { asks: r.asks - 1, answer: None, ..r });
        }
    };
    if tag % 2 == 0 {
        c.send_lsp_request::<Ask>(p, move |_s, r| h(r));
    } else {
        c.untyped().send_lsp_request_::<Ask>(p, move |s, r| {
            assert!(s.downcast_mut::<Service>().is_some());
            h(r)
        });
    }
}
fn self_event(c: &TypedLspClient<Service>, src: u64, seq: u64, notes: u64) {
    ev(Ev::EvSent(src, seq));
    if seq % 3 == 2 {
        c.send_event(SimEv2 { src, seq });
    } else if seq % 3 == 1 {
        c.untyped().send_event(SimEv { src, seq, notes });
    } else {
        c.send_event(SimEv { src, seq, notes });
    }
}
/// What a handler does in the main loop before it answers.
fn effects(s: &Service, a: &Act) {
    for i in 0..a.notes {
        emit(&s.typed, 0, a.nth_note(i));
    }
    for _ in 0..a.asks {
        ask(&s.typed, 0, React::of(a));
    }
    for i in 0..a.evs {
        self_event(&s.typed, 10_000 + a.tag, i, 0);
    }
}
async fn work<T: Made>(c: TypedLspClient<Service>, a: Act) -> LspResult<T> {
    if a.ns > 0 {
        tokio::time::sleep(std::time::Duration::from_nanos(a.ns)).await;
    }
    for i in 0..a.fnotes {
        emit(&c, a.tag, a.nth_note(50 + i));
        if i % 2 == 1 {
            tokio::task::yield_now().await;
        }
    }
    for _ in 0..a.fasks {
        ask(&c, a.tag, React::of(&a));
    }
    for i in 0..a.fevs {
        self_event(&c, 20_000 + a.tag, i, 0);
    }
    if let Some(g) = a.gate {
        loop {
            let n = GATE_N.notified();
            if w().gates.contains(&g) {
                break;
            }
            n.await;
        }
    }
    if a.k.starts_with("never") {
        std::future::pending::<()>().await;
    }
    ev(Ev::Done(a.tag));
    if a.k.ends_with("err") {
        Err(user_err(a.tag))
    } else {
        Ok(T::made(&a))
    }
}
fn act<T: Made + Send>(s: &mut Service, a: Act) -> SchedulableResponse<T> {
    effects(s, &a);
    match a.k.as_str() {
        "err" => {
            ev(Ev::RespMain(json!(a.tag)));
            just_result(Err(user_err(a.tag)))
        }
        "early" => {
            ev(Ev::RespMain(json!(a.tag)));
            Err(user_err(a.tag))
        }
        "ok" | "" | "unser" => {
            ev(Ev::RespMain(json!(a.tag)));
            just_ok(T::made(&a))
        }
        _ => just_future(work(s.typed.clone(), a)),
    }
}
fn act_raw(s: &mut Service, id: RequestId, a: Act) -> ScheduledResult {
    match a.k.as_str() {
        "none" => {
            effects(s, &a);
            ev(Ev::RespMain(json!(a.tag)));
            Ok(None)
        }
        "now" | "now_unser" => {
            effects(s, &a);
            ev(Ev::RespMain(json!(a.tag)));
            s.client.respond_result(id, Ok(Out::made(&a)));
            Ok(Some(()))
        }
        // a helper thread answers
        "thread" | "thread_err" | "thread_unser" => {
            effects(s, &a);
            let c = s.client.clone();
            let b = a.clone();
            let dap = w().dap;
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_nanos(b.ns));
                ev(Ev::Done(b.tag));
                if b.k == "thread_err" {
                    c.respond_result::<Value>(id, Err(user_err(b.tag)));
                } else if dap || b.k == "thread_unser" {
                    c.respond_result(id, Ok(Out::made(&b)));
                } else {
                    c.respond_lsp(lsp::Response::new_ok(id, result_of(&b)));
                }
            });
            Ok(Some(()))
        }
        // the handler of a response answers
        "via_ask" => {
            effects(s, &a);
            let r = React { answer: Some((id, a.clone())), ..React::of(&a) };
            ask(&s.typed, 0, r);
            Ok(Some(()))
        }
        // two tasks race to answer: one answer must go out
        "twice" => {
            effects(s, &a);
            hit(P::racing_responders);
            for i in 0..2u64 {
                let (c, id, b) = (s.client.clone(), id.clone(), a.clone());
                s.rt.spawn(async move {
                    if b.ns > 0 {
                        tokio::time::sleep(std::time::Duration::from_nanos(b.ns)).await;
                    }
                    ev(Ev::Done(b.tag));
                    c.respond_result(id, Ok(json!({"tag": b.tag, "which": i})));
                });
            }
            Ok(Some(()))
        }
        "future" | "future_err" | "future_unser" | "never" => {
            effects(s, &a);
            let t = s.typed.clone();
            let fut = work::<Out>(t, a);
            s.client.schedule(id, just_future(fut))
        }
        _ => {
            let r = act::<Out>(s, a);
            s.client.schedule(id, r)
        }
    }
}
fn parse_act(v: Value) -> LspResult<Act> {
    serde_json::from_value(v).map_err(invalid_params)
}

fn h_typed(s: &mut Service, a: Act) -> SchedulableResponse<Out> {
    ev(Ev::Disp('r', a.tag));
    act(s, a)
}
fn h_typed_(s: &mut Service, id: RequestId, a: Act) -> ScheduledResult {
    ev(Ev::Disp('r', a.tag));
    act_raw(s, id, a)
}
fn h_raw(s: &mut Service, id: RequestId, v: Value) -> ScheduledResult {
    ev(Ev::Disp('r', v["tag"].as_u64().unwrap_or(u64::MAX)));
    let a = parse_act(v).inspect_err(|_| ev(Ev::RespMain(json!(null))))?;
    act_raw(s, id, a)
}
fn h_down(s: &mut Service, id: RequestId, v: Value) -> ScheduledResult {
    match serde_json::from_value::<Act>(v) {
        Ok(a) => {
            ev(Ev::Disp('r', a.tag));
            act_raw(s, id, a)
        }
        Err(_) => {
            ev(Ev::Disp('r', 1));
            ev(Ev::RespMain(json!(1)));
            s.client.respond_result(id, Ok(()));
            Ok(Some(()))
        }
    }
}
fn h_shutdown(_s: &mut Service, _: ()) -> SchedulableResponse<()> {
    ev(Ev::Disp('r', 1));
    ev(Ev::RespMain(json!(1)));
    just_ok(())
}
fn cmd_arg(v: &[Value]) -> LspResult<Act> {
    v.first().cloned().map(parse_act).unwrap_or_else(|| Err(invalid_params("no argument")))
}
fn h_cmd(s: &mut Service, v: Vec<Value>) -> SchedulableResponse<Out> {
    ev(Ev::Disp('c', v.first().and_then(|v| v["tag"].as_u64()).unwrap_or(u64::MAX)));
    let a = cmd_arg(&v).inspect_err(|_| ev(Ev::RespMain(json!(null))))?;
    act(s, a)
}
fn h_cmd_(s: &mut Service, id: RequestId, v: Vec<Value>) -> ScheduledResult {
    ev(Ev::Disp('c', v.first().and_then(|v| v["tag"].as_u64()).unwrap_or(u64::MAX)));
    let a = cmd_arg(&v).inspect_err(|_| ev(Ev::RespMain(json!(null))))?;
    act_raw(s, id, a)
}
fn h_res(s: &mut Service, v: Vec<Value>) -> AnySchedulableResponse {
    ev(Ev::Disp('R', v.get(1).and_then(|v| v["tag"].as_u64()).unwrap_or(u64::MAX)));
    let a = cmd_arg(&v[1..]).inspect_err(|_| ev(Ev::RespMain(json!(null))))?;
    act(s, a)
}
fn h_res_(s: &mut Service, id: RequestId, v: Vec<Value>) -> ScheduledResult {
    ev(Ev::Disp('R', v.get(1).and_then(|v| v["tag"].as_u64()).unwrap_or(u64::MAX)));
    let a = cmd_arg(&v[1..]).inspect_err(|_| ev(Ev::RespMain(json!(null))))?;
    act_raw(s, id, a)
}
fn note(s: &mut Service, a: Act) -> LspResult<()> {
    ev(Ev::Disp('n', a.tag));
    if let Some(g) = a.gate {
        w().gates.push(g);
        GATE_N.notify_waiters();
    }
    effects(s, &a);
    if a.fnotes + a.fasks + a.fevs > 0 {
        let t = s.typed.clone();
        let b = Act { gate: None, ..a.clone() };
        s.rt.spawn(work::<Value>(t, b));
    }
    if a.k == "err" {
        return Err(user_err(a.tag));
    }
    Ok(())
}
fn n_typed(s: &mut Service, a: Act) -> LspResult<()> {
    note(s, a)
}
fn n_raw(s: &mut Service, v: Value) -> LspResult<()> {
    match parse_act(v) {
        Ok(a) => note(s, a),
        Err(e) => {
            ev(Ev::Disp('n', u64::MAX));
            Err(e)
        }
    }
}
fn n_initialized(_s: &mut Service, _v: Value) -> LspResult<()> {
    ev(Ev::Disp('n', 2));
    Ok(())
}
fn n_exit(_s: &mut Service, _v: Value) -> LspResult<()> {
    ev(Ev::Disp('n', 3));
    Ok(())
}
macro_rules! methods { ($($n:ident $m:literal $t:ty;)*) => { $(
    pub struct $n;
    impl lsp_types::request::Request for $n { const METHOD: &'static str = $m; type Params = $t; type Result = Out; }
    impl lsp_types::notification::Notification for $n { const METHOD: &'static str = $m; type Params = $t; }
    impl dapts::IRequest for $n { const COMMAND: &'static str = $m; type Arguments = $t; type Response = Out; }
)* } }
methods! {
    Typed "sim/typed" Act;
    TypedB "sim/typed2" Act;
    Typed_ "sim/typed_" Act;
    Raw "sim/raw" Act;
    Note "sim/note" Act;
    Note_ "sim/note_" Act;
}
fn on_ev(s: &mut Option<&mut Service>, src: u64, seq: u64, notes: u64) {
    hit(P::events_dispatched);
    if s.is_none() {
        hit(P::event_before_init);
    }
    ev(Ev::EvDisp(src, seq, s.is_some()));
    if let Some(s) = s {
        for i in 0..notes {
            emit(&s.typed, 0, 5_000_000 + src * 1000 + seq * 10 + i);
        }
    }
}
macro_rules! events { ($b:expr) => {
    $b.with_event(&SimEv { src: 0, seq: 0, notes: 0 }, |mut s: ServiceState<Args0, Service>, e: SimEv| {
        on_ev(&mut s.ready(), e.src, e.seq, e.notes);
        Ok(())
    })
    .with_event(&SimEv2 { src: 0, seq: 0 }, |mut s: ServiceState<Args0, Service>, e: SimEv2| {
        on_ev(&mut s.ready(), e.src, e.seq, 0);
        Ok(())
    })
} }

/// What tinymist's own `main` does: stdio transport, client root, driver.
pub fn server_main(cfg: Value, mirror: String, replay: String) {
    let is_replay = !replay.is_empty();
    let workers = cfg["workers"].as_u64().unwrap_or(2).max(1) as usize;
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_time().build().unwrap();
    let h = rt.handle().clone();
    let args = transport::MirrorArgs { mirror, replay };
    let sources = cfg["sources"].as_array().cloned().unwrap_or_default();
    let res = if w().dap {
        transport::with_stdio_transport::<DapMessage>(args, |conn| {
            let root = LspClientRoot::new(h.clone(), conn.sender);
            spawn_sources(sources, root.weak());
            let c = root.weak();
            let mut b = DapBuilder::new(Args0 { client: c.clone(), rt: h.clone() }, c)
                .with_request::<Typed>(h_typed)
                .with_request_::<Typed_>(h_typed_)
                .with_raw_request::<Raw>(h_raw)
                .with_raw_request::<dapts::request::Disconnect>(h_down);
            b = events!(b);
            b.notif_handlers.insert("sim/note_", Box::new(|s, v| n_raw(s, v)));
            let r = b.build().start(conn.receiver, is_replay);
            w().loop_end = simrt::now();
            ev(Ev::LoopEnd(r.is_ok()));
            drop(root);
            r
        })
    } else {
        transport::with_stdio_transport::<LspMessage>(args, |conn| {
            let root = LspClientRoot::new(h.clone(), conn.sender);
            spawn_sources(sources, root.weak());
            let c = root.weak();
            let mut b = LspBuilder::new(Args0 { client: c.clone(), rt: h.clone() }, c)
                .with_request::<Typed>(h_typed)
                .with_request_::<Typed_>(h_typed_)
                .with_raw_request::<Raw>(h_raw)
                .with_request::<lsp_types::request::Shutdown>(h_shutdown)
                .with_notification::<Note>(n_typed)
                .with_notification_::<Note_>(n_raw)
                .with_notification_::<lsp_types::notification::Initialized>(n_initialized)
                .with_command("sim.cmd", h_cmd)
                .with_command_("sim.cmd_", h_cmd_)
                .with_resource("/sim/help", h_res)
                .with_resource_(std::path::Path::new("/sim/raw").into(), h_res_);
            if w().raw_down {
                b = b.with_raw_request::<lsp_types::request::Shutdown>(h_down);
            }
            if cfg["exit_handler"].as_bool().unwrap_or(false) {
                b = b.with_notification_::<lsp_types::notification::Exit>(n_exit);
            }
            b = events!(b);
            let r = b.build().start(conn.receiver, is_replay);
            w().loop_end = simrt::now();
            ev(Ev::LoopEnd(r.is_ok()));
            drop(root);
            r
        })
    };
    rt.shutdown_background();
    w().done_at = simrt::now();
    w().main_done = Some(res.map_err(|e| format!("{e:?}")));
    // main returns: the process is gone, and its ends of the pipes with it
    w().stdin.close_read();
    w().stdout.kill_writer();
    simrt::wake_all(MAIN);
}
pub const MAIN: u64 = 0x0100_0000_0000_0005;

/// Threads of the server that send events to the main loop by themselves.
fn spawn_sources(src: Vec<Value>, client: LspClient) {
    w().sources_left = src.len();
    for (i, plan) in src.into_iter().enumerate() {
        let c: TypedLspClient<Service> = client.to_typed();
        std::thread::spawn(move || {
            let mut seq = 0;
            for d in plan.as_array().unwrap() {
                let d = d.as_u64().unwrap();
                if d > 0 {
                    std::thread::sleep(std::time::Duration::from_nanos(d));
                }
                if d % 5 == 3 {
                    c.send_event(SimEvUnhandled);
                }
                self_event(&c, i as u64, seq, d % 2);
                seq += 1;
            }
            w().sources_left -= 1;
            simrt::wake_all(SRC);
        });
    }
}
