//! LSP and DAP sessions: generation, the reference model, and the oracles.
use crate::core::*;
use crate::probes::{hit, P};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

const S: u64 = 1_000_000_000;

// ---- the reference model -------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Uninit,
    Init,
    Ready,
    Down,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Resp {
    None,
    Ok(Value),
    Err(i64),
    UserErr(u64),
    /// one of the racing results
    Either(u64),
    /// answered once a gate opens
    Gated(u64, Box<Resp>),
    /// the handler never completes
    Never,
}
#[derive(Clone, Debug)]
pub struct Exp {
    pub id: Value,
    pub resp: Resp,
    pub sync: bool,
    pub disp: Option<(char, u64)>,
    /// why: "life", "bad", "unknown", "user"
    pub class: &'static str,
    pub after: St,
}

fn act_resp(a: &Act, raw: bool) -> (Resp, bool) {
    let ok = Resp::Ok(result_of(a));
    let fut = |a: &Act| {
        let r = if a.k.ends_with("unser") { Resp::Err(-32603) } else if a.k.ends_with("err") { Resp::UserErr(a.tag) } else { Resp::Ok(result_of(a)) };
        if a.k.starts_with("never") {
            Resp::Never
        } else if let Some(g) = a.gate {
            Resp::Gated(g, Box::new(r))
        } else {
            r
        }
    };
    let unser = Resp::Err(-32603);
    match (raw, a.k.as_str()) {
        (true, "now_unser" ) => (unser, true),
        (_, "unser") => (unser, true),
        (true, "thread_unser") => (unser, false),
        (true, "none") => (Resp::Ok(Value::Null), true),
        (true, "now") => (ok, true),
        (true, "thread") => (ok, false),
        (true, "thread_err") => (Resp::UserErr(a.tag), false),
        (true, "twice") => (Resp::Either(a.tag), false),
        (true, "via_ask") => (Resp::Gated(VIA + a.tag, Box::new(ok)), false),
        (true, "future" | "future_err" | "future_unser" | "never") => (fut(a), false),
        (_, "err" | "early") => (Resp::UserErr(a.tag), true),
        (_, "ok" | "") => (ok, true),
        _ => (fut(a), false),
    }
}

pub fn model(wire: &[Value], dap: bool, exit_handler: bool) -> Vec<Exp> {
    let mut st = St::Uninit;
    let mut out = vec![];
    for m in wire {
        let mut e = Exp { id: Value::Null, resp: Resp::None, sync: true, disp: None, class: "user", after: st };
        let (is_req, is_note, method, params) = if dap {
            let t = m["type"].as_str().unwrap_or("");
            let name = if t == "request" { &m["command"] } else { &m["event"] };
            let p = if t == "request" { &m["arguments"] } else { &m["body"] };
            (t == "request", t == "event", name.as_str().unwrap_or("").to_string(), p.clone())
        } else {
            let has_id = m.get("id").is_some();
            let meth = m.get("method").is_some();
            (has_id && meth, !has_id && meth, m["method"].as_str().unwrap_or("").to_string(), m["params"].clone())
        };
        if is_req {
            e.id = if dap { m["seq"].clone() } else { m["id"].clone() };
            let mut rej = |e: &mut Exp, code: i64, class| {
                e.resp = Resp::Err(code);
                e.class = class;
            };
            match (st, method.as_str()) {
                (St::Uninit, "initialize") => match serde_json::from_value::<InitParams>(params) {
                    Ok(p) => {
                        e.disp = Some(('i', p.tag));
                        st = if dap { St::Ready } else { St::Init };
                        e.class = "life";
                        e.resp = if p.k == "err" || p.k == "early" {
                            Resp::UserErr(p.tag)
                        } else {
                            Resp::Ok(json!({"tag": p.tag, "capabilities": {}}))
                        };
                        e.sync = p.k != "fut";
                    }
                    Err(_) => rej(&mut e, -32600, "bad"),
                },
                (St::Uninit | St::Init, _) => rej(&mut e, -32002, "life"),
                (_, "initialize") => rej(&mut e, -32600, "life"),
                (St::Down, _) => rej(&mut e, -32600, "life"),
                (St::Ready, "workspace/executeCommand") if !dap => {
                    match serde_json::from_value::<lsp_types::ExecuteCommandParams>(params) {
                        Err(_) => rej(&mut e, -32602, "bad"),
                        Ok(p) => {
                            let res = p.command == "tinymist.getResources";
                            let tag = |v: Option<&Value>| v.and_then(|v| v["tag"].as_u64()).unwrap_or(u64::MAX);
                            let (kind, raw, arg) = if res {
                                match p.arguments.first().map(|a| a.as_str()) {
                                    Some(Some("/sim/help")) => ('R', false, p.arguments.get(1)),
                                    Some(Some("/sim/raw")) => ('R', true, p.arguments.get(1)),
                                    Some(Some(_)) => ('x', false, None),
                                    Some(None) | None => ('b', false, None),
                                }
                            } else if p.command == "sim.cmd" {
                                ('c', false, p.arguments.first())
                            } else if p.command == "sim.cmd_" {
                                ('c', true, p.arguments.first())
                            } else {
                                ('x', false, None)
                            };
                            match kind {
                                'x' => rej(&mut e, -32601, "unknown"),
                                'b' => rej(&mut e, -32602, "bad"),
                                k => {
                                    e.disp = Some((k, tag(arg)));
                                    match arg.map(|a| serde_json::from_value::<Act>(a.clone())) {
                                        Some(Ok(mut a)) => {
                                            if k == 'R' && !raw {
                                                a.k = a.k.replace("unser", "");
                                            }
                                            (e.resp, e.sync) = act_resp(&a, raw)
                                        }
                                        _ => rej(&mut e, -32602, "bad"),
                                    }
                                }
                            }
                        }
                    }
                }
                (St::Ready, "disconnect" | "shutdown") if dap == (method == "disconnect") && (dap || w().raw_down) => {
                    e.class = "life";
                    match serde_json::from_value::<Act>(params) {
                        Ok(a) => {
                            e.disp = Some(('r', a.tag));
                            (e.resp, e.sync) = act_resp(&a, true);
                        }
                        Err(_) => {
                            e.disp = Some(('r', 1));
                            e.resp = Resp::Ok(Value::Null);
                        }
                    }
                    st = St::Down;
                }
                (St::Ready, "shutdown") if !dap => {
                    if serde_json::from_value::<()>(params).is_ok() {
                        e.disp = Some(('r', 1));
                        e.resp = Resp::Ok(Value::Null);
                        e.class = "life";
                    } else {
                        rej(&mut e, -32600, "bad");
                    }
                    st = St::Down;
                }
                (St::Ready, "sim/typed" | "sim/typed_") => match serde_json::from_value::<Act>(params) {
                    Ok(a) => {
                        e.disp = Some(('r', a.tag));
                        (e.resp, e.sync) = act_resp(&a, method == "sim/typed_");
                    }
                    Err(_) => rej(&mut e, -32600, "bad"),
                },
                (St::Ready, "sim/raw") => {
                    e.disp = Some(('r', params["tag"].as_u64().unwrap_or(u64::MAX)));
                    match serde_json::from_value::<Act>(params) {
                        Ok(a) => (e.resp, e.sync) = act_resp(&a, true),
                        Err(_) => rej(&mut e, -32602, "bad"),
                    }
                }
                (St::Ready, _) => rej(&mut e, -32601, "unknown"),
            }
        } else if is_note {
            match (st, method.as_str()) {
                (St::Init, "initialized") if !dap => {
                    st = St::Ready;
                    e.disp = Some(('n', 2));
                }
                (St::Ready, "initialized") if !dap => e.disp = Some(('n', 2)),
                (St::Ready, "exit") if !dap => {
                    if exit_handler {
                        e.disp = Some(('n', 3))
                    }
                }
                (St::Ready, "sim/note") if !dap => {
                    if let Ok(a) = serde_json::from_value::<Act>(params) {
                        e.disp = Some(('n', a.tag));
                    }
                }
                (St::Ready, "sim/note_") => {
                    e.disp = Some(('n', serde_json::from_value::<Act>(params).map_or(u64::MAX, |a| a.tag)));
                }
                _ => e.class = "life",
            }
        }
        e.after = st;
        out.push(e);
        if is_note && method == "exit" && !dap {
            break;
        }
    }
    out
}

// ---- oracles ----------------------------------------------------------------------

pub struct View {
    pub dap: bool,
    pub exit_handler: bool,
    pub out_closed: bool,
    /// requests are only complete up to this wire index (exclusive)
    pub cut: usize,
    /// scenario-specific additional property for everything
    pub extra: Vec<&'static str>,
    /// a replay: answers must be complete, tasks and events need not be
    pub replay: bool,
}
impl View {
    fn v(&self, lsp: &[&'static str], sig: &str, msg: String) {
        let mut p: Vec<&str> = vec![];
        if self.dap {
            p.push("D01");
            if lsp.contains(&"L05") || lsp.contains(&"L06") || lsp.contains(&"L07") {
                p.extend(lsp.iter().filter(|x| matches!(**x, "L05" | "L06" | "L07")));
            }
        } else {
            p.extend(lsp);
        }
        p.extend(&self.extra);
        viol(&p, sig, &msg)
    }
}
fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 200 {
        s.chars().take(200).collect()
    } else {
        s
    }
}

/// `settled`: the server had all the time it needed; otherwise the session is over.
pub fn check(vw: &View, settled: bool, finished: bool) {
    let w = w();
    let wire = &w.wire[..vw.cut.min(w.wire.len())];
    let exp = model(wire, vw.dap, vw.exit_handler);
    if let Some(e) = &w.frame_err {
        if !vw.out_closed {
            vw.v(&["L06"], "frame", format!("the output is not a sequence of frames: {e}"));
        }
    }
    if finished && w.out_partial > 0 && !vw.out_closed {
        vw.v(&["L06", "L07"], "partial", format!("the output ends inside a frame ({} bytes left)", w.out_partial));
    }
    // ---- dispatch order
    let want: Vec<(char, u64)> = exp.iter().filter_map(|e| e.disp).collect();
    let got: Vec<(char, u64)> =
        w.ev.iter().filter_map(|e| if let Ev::Disp(k, t) = e { Some((*k, *t)) } else { None }).collect();
    for (i, g) in got.iter().enumerate() {
        if want.get(i) != Some(g) {
            let in_want = want.contains(g);
            let life = !in_want;
            vw.v(
                if life { &["L02", "L03", "L05"] } else { &["L03", "L05", "L02"] },
                "dispatch",
                format!("dispatch #{i} is {g:?}, the client's messages call for {:?}", want.get(i)),
            );
            break;
        }
    }
    if got.len() < want.len() && (settled || finished) {
        vw.v(
            &["L03", "L05", "L02", "L01"],
            "undelivered",
            format!("message {:?} was completely sent but its handler never ran ({} of {} dispatched)", want[got.len()], got.len(), want.len()),
        );
    }
    // ---- responses
    let key = |v: &Value| v.to_string();
    // an id is only used again once its request is answered
    let mut reqs: HashMap<String, Vec<&Exp>> = HashMap::new();
    for e in &exp {
        if !e.id.is_null() {
            reqs.entry(key(&e.id)).or_default().push(e);
        }
    }
    let mut answered: HashMap<String, usize> = HashMap::new();
    let mut sync_order: Vec<String> = vec![];
    let mut main_out: Vec<(char, u64)> = vec![];
    let mut by_origin: HashMap<u64, Vec<u64>> = HashMap::new();
    let mut ask_ids: HashSet<String> = HashSet::new();
    let mut seqs: HashSet<String> = HashSet::new();
    let mut last_async_pos = None;
    let ask_origin: HashMap<u64, u64> =
        w.ev.iter().filter_map(|e| if let Ev::Ask(o, t) = e { Some((*t, *o)) } else { None }).collect();
    for e in &w.ev {
        let Ev::Out(m) = e else { continue };
        let is_resp = if vw.dap { m["type"] == "response" } else { m.get("id").is_some() && m.get("method").is_none() };
        if is_resp {
            let id = if vw.dap { &m["request_seq"] } else { &m["id"] };
            let k = key(id);
            let n = answered.entry(k.clone()).or_default();
            *n += 1;
            let Some(all) = reqs.get(&k) else {
                vw.v(&["L01"], "stray", format!("a response to {k}, which the client never asked: {}", short(m)));
                continue;
            };
            if *n > all.len() {
                vw.v(&["L01"], "twice", format!("request {k} is answered {n} times"));
            }
            let e = all[(*n).min(all.len()) - 1];
            hit(P::responses_checked);
            let (okv, code, msg) = if vw.dap {
                let ok = m["success"] == true;
                let msg = m["message"].as_str().unwrap_or("").to_string();
                (if ok { Some(m["body"].clone()) } else { None }, None, msg)
            } else {
                if m.get("result").is_some() == m.get("error").is_some() {
                    vw.v(&["L01"], "shape", format!("a response needs one of result and error: {}", short(m)));
                }
                (m.get("result").cloned(), m["error"]["code"].as_i64(), m["error"]["message"].as_str().unwrap_or("").to_string())
            };
            let mut want = &e.resp;
            if let Resp::Gated(_, r) = want {
                want = r;
            }
            let good = match want {
                Resp::Ok(v) => okv.as_ref() == Some(v),
                Resp::Err(c) => okv.is_none() && (vw.dap || code == Some(*c)),
                Resp::UserErr(t) => okv.is_none() && (vw.dap || code == Some(err_code(*t) as i64)) && msg == err_msg(*t),
                Resp::Either(t) => okv.as_ref().is_some_and(|v| v["tag"] == *t && v["which"].as_u64().is_some_and(|x| x < 2)),
                Resp::Never | Resp::None | Resp::Gated(..) => false,
            };
            if e.class == "life" {
                hit(P::rejected_lifecycle)
            }
            if !good {
                let p: &[&'static str] = match e.class {
                    "life" => &["L02", "L01"],
                    "bad" | "unknown" => &["L10", "L02", "L01"],
                    _ => &["L01", "L05", "L06"],
                };
                vw.v(p, "wrong-response", format!("request {k} is answered by {}, expected {}", short(m), short(&json!(format!("{want:?}")))));
            }
            if e.sync {
                sync_order.push(k.clone());
                if let (Resp::Ok(_) | Resp::UserErr(_) | Resp::Err(-32603), Some((_, t))) = (want, e.disp) {
                    main_out.push(('r', t));
                }
            } else {
                last_async_pos = Some(k);
            }
        } else if vw.dap {
            let s = key(&m["seq"]);
            if m["type"] != "event" || m["event"] != "sim/emit" {
                vw.v(&["L06"], "unexpected", format!("unexpected output {}", short(m)));
                continue;
            }
            if !seqs.insert(s.clone()) {
                vw.v(&["L04"], "seq", format!("two server events carry seq {s}"));
            }
            let (o, t) = (m["body"]["o"].as_u64().unwrap_or(0), m["body"]["tag"].as_u64().unwrap_or(0));
            if m["body"] != emitted(o, t) {
                vw.v(&["L06"], "content", format!("the server sent {}, the client got {}", emitted(o, t), short(m)));
            }
            if o == 0 {
                main_out.push(('e', t));
            }
            by_origin.entry(o).or_default().push(t);
        } else if m["method"] == "sim/ask" {
            let k = key(&m["id"]);
            let t = m["params"]["tag"].as_u64().unwrap_or(0);
            if !ask_ids.insert(k.clone()) {
                vw.v(&["L04"], "ask-id", format!("two server requests carry the id {k}"));
            }
            let o = ask_origin.get(&t).copied().unwrap_or(0);
            if o == 0 {
                main_out.push(('a', t));
            }
            by_origin.entry(o).or_default().push(t);
        } else if m["method"] == "sim/emit" {
            let (o, t) = (m["params"]["o"].as_u64().unwrap_or(0), m["params"]["tag"].as_u64().unwrap_or(0));
            if m["params"] != emitted(o, t) {
                vw.v(&["L06"], "content", format!("the server sent {}, the client got {}", emitted(o, t), short(m)));
            }
            if o == 0 {
                main_out.push(('e', t));
            }
            by_origin.entry(o).or_default().push(t);
        } else {
            vw.v(&["L06"], "unexpected", format!("unexpected output {}", short(m)));
        }
    }
    if last_async_pos.is_some() {
        hit(P::out_of_order_responses);
    }
    // ---- the order in which the main loop's messages come out
    let main_want: Vec<(char, u64)> = w
        .ev
        .iter()
        .filter_map(|e| match e {
            Ev::Emit(0, t) => Some(('e', *t)),
            Ev::Ask(0, t) => Some(('a', *t)),
            Ev::RespMain(v) => v.as_u64().map(|t| ('r', t)),
            _ => None,
        })
        .collect();
    hit(P::order_checked);
    for (i, g) in main_out.iter().enumerate() {
        if main_want.get(i) != Some(g) {
            vw.v(&["L03", "L06"], "order", format!("message #{i} of the main loop comes out as {g:?}, it sent {:?}", main_want.get(i)));
            break;
        }
    }
    if !vw.out_closed && (settled || finished) && main_out.len() < main_want.len() {
        vw.v(
            if finished { &["L07", "L06", "L01"] } else { &["L06", "L01"] },
            "lost-output",
            format!("{:?} was sent by the main loop but never reached the client", main_want[main_out.len()]),
        );
    }
    let sync_want: Vec<String> = exp.iter().filter(|e| !e.id.is_null() && e.sync).map(|e| key(&e.id)).collect();
    for (i, g) in sync_order.iter().enumerate() {
        if sync_want.get(i) != Some(g) {
            vw.v(&["L03", "L06"], "resp-order", format!("in-place response #{i} is for {g}, the requests call for {:?}", sync_want.get(i)));
            break;
        }
    }
    for (o, got) in &by_origin {
        let want: Vec<u64> = w
            .ev
            .iter()
            .filter_map(|e| match e {
                Ev::Emit(x, t) if x == o => Some(*t),
                Ev::Ask(x, t) if x == o => Some(*t),
                _ => None,
            })
            .collect();
        if got.len() > want.len() || got[..] != want[..got.len()] {
            vw.v(&["L06", "L03"], "task-order", format!("task {o} sent {want:?}, the client got {got:?}"));
        }
        if settled && !vw.replay && !vw.out_closed && got.len() < want.len() {
            vw.v(&["L06"], "task-lost", format!("task {o} sent {want:?}, the client got only {got:?}"));
        }
    }
    // ---- liveness of the answers
    if !vw.out_closed && (settled || finished) {
        let mut asked: HashMap<String, usize> = HashMap::new();
        for e in &exp {
            if e.id.is_null() {
                continue;
            }
            let nth = asked.entry(key(&e.id)).or_default();
            *nth += 1;
            if answered.get(&key(&e.id)).is_some_and(|n| n >= nth) {
                continue;
            }
            let due = match &e.resp {
                Resp::Never | Resp::None => false,
                Resp::Gated(g, _) => settled && w.gates.contains(g),
                _ => settled || e.sync,
            };
            if due {
                let p: &[&'static str] = match e.class {
                    "bad" | "unknown" => &["L01", "L10"],
                    "life" => &["L01", "L02"],
                    _ if finished && !settled => &["L07", "L01"],
                    _ => &["L01"],
                };
                vw.v(p, "unanswered", format!("request {} ({:?}) is never answered", key(&e.id), e.resp));
            } else if finished {
                hit(P::pending_at_exit);
            }
        }
    }
    // ---- events of the server itself
    let mut sent: HashMap<u64, Vec<u64>> = HashMap::new();
    let mut disp: HashMap<u64, Vec<u64>> = HashMap::new();
    let mut inited = false;
    for e in &w.ev {
        match e {
            Ev::Init(_) => inited = true,
            Ev::EvSent(s, q) => sent.entry(*s).or_default().push(*q),
            Ev::EvDisp(s, q, ready) => {
                disp.entry(*s).or_default().push(*q);
                if *ready != inited {
                    vw.v(&["L02"], "event-state", format!("an event handler saw ready={ready}, initialized={inited}"));
                }
            }
            _ => {}
        }
    }
    let down = exp.last().is_some_and(|e| e.after == St::Down);
    for (s, d) in &disp {
        let e: &[u64] = sent.get(s).map_or(&[], |v| v);
        // FIFO per source, nothing twice, and nothing skipped
        if d.len() > e.len() || d[..] != e[..d.len()] {
            vw.v(&["L03"], "event-order", format!("source {s} sent events {e:?}, the loop handled {d:?}"));
        }
    }
    if settled && !vw.replay && !down {
        for (s, e) in &sent {
            let n = disp.get(s).map_or(0, |d| d.len());
            if n < e.len() {
                vw.v(&["L03"], "event-lost", format!("source {s} sent events {e:?}, only {n} were handled"));
            }
        }
    }
    // ---- requests of the server
    if !vw.dap {
        let mut handled: HashMap<u64, usize> = HashMap::new();
        let nulls: HashSet<u64> = w.asks_seen.iter().filter(|a| a.2 == "null").map(|a| a.1).collect();
        for e in &w.ev {
            if let Ev::Handled(own, got) = e {
                *handled.entry(*own).or_default() += 1;
                if *got != Some(*own) && !(got.is_none() && nulls.contains(own)) {
                    vw.v(&["L04"], "routed", format!("the handler of server request {own} got the response to {got:?}"));
                }
            }
        }
        let mut st = St::Uninit;
        let mut due: HashSet<u64> = HashSet::new();
        let id2tag: HashMap<String, u64> = w.asks_seen.iter().map(|(i, t, _)| (key(i), *t)).collect();
        for (m, e) in wire.iter().zip(&exp) {
            let before = st;
            st = e.after;
            if m.get("method").is_none() && before == St::Ready {
                if let Some(t) = id2tag.get(&key(&m["id"])) {
                    due.insert(*t);
                }
            }
        }
        for (t, n) in &handled {
            if *n > 1 {
                vw.v(&["L04"], "handled-twice", format!("the handler of server request {t} ran {n} times"));
            }
            if !due.contains(t) {
                vw.v(&["L04", "L02"], "handled-early", format!("the handler of server request {t} ran without a response to it"));
            }
        }
        if settled || finished {
            for t in &due {
                if !handled.contains_key(t) {
                    vw.v(&["L04"], "unhandled", format!("the client answered server request {t}, its handler never ran"));
                }
            }
        }
    }
}

// ---- generation --------------------------------------------------------------------

pub fn gen_rates(r: &mut Rng, names: &[&str], quiet_pct: usize) -> Value {
    let mut m = serde_json::Map::new();
    if !r.chance(quiet_pct) {
        for n in names {
            if r.chance(45) {
                m.insert(n.to_string(), json!(*r.pick(&[3u32, 10, 30, 80, 200, 400])));
            }
        }
    }
    Value::Object(m)
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub tag: u64,
    pub nid: i64,
    pub idmode: usize,
    pub dap: bool,
    pub gates: Vec<u64>,
    pub allow_never: bool,
    pub style: bool,
    pub asks: bool,
    pub longest: u64,
    /// something may take hours
    pub far: bool,
    /// one handler may send a large number of events
    pub burst: bool,
    /// results may be huge
    pub vast: bool,
    /// additional percentage of malformed messages
    pub bad_pct: usize,
}
impl Gen<'_> {
    pub fn tag(&mut self) -> u64 {
        self.tag += 1;
        self.tag
    }
    pub fn id(&mut self) -> Value {
        self.nid += 1;
        if self.dap {
            return json!(match self.idmode {
                3 if self.nid <= 500 => i32::MAX as i64 - 500 + self.nid,
                _ => self.nid,
            });
        }
        match self.idmode {
            0 => json!(self.nid),
            1 => json!(format!("r{}", self.nid)),
            2 => match self.nid % 3 {
                0 => json!(self.nid),
                1 => json!(format!("{}", self.nid)),
                _ => json!(-self.nid),
            },
            3 if self.nid <= 500 => json!(i32::MAX as i64 - 500 + self.nid),
            3 => json!(self.nid),
            5 => match self.nid % 2 {
                0 => json!(self.nid / 2),
                _ => json!(format!("{}", self.nid.div_euclid(2) + 1)),
            },
            6 => json!(format!("{}-{}", "0f3b5c7e-".repeat(40), self.nid)),
            7 => {
                // ids that are almost the same
                let k = self.nid / 9;
                match self.nid % 9 {
                    0 => json!(k),
                    1 => json!(format!("{k}")),
                    2 => json!(format!("0{k}")),
                    3 => json!(format!(" {k}")),
                    4 => json!(format!("{k} ")),
                    5 => json!(format!("a{k}")),
                    6 => json!(format!("A{k}")),
                    7 if k == 0 => json!(""),
                    7 => json!(-k),
                    _ => json!(format!("\"{k}\"")),
                }
            }
            _ => json!(format!("é\"\\{}\n漢", self.nid)),
        }
    }
    pub fn delay(&mut self) -> u64 {
        let d = *self.r.pick(&[0, 0, 1_000, 100_000, 2_000_000, 50_000_000, 900_000_000, 1_000_000, 1_000_000]);
        let d = if self.far && self.r.chance(20) { *self.r.pick(&[61, 605, 3_700, 7_200]) * S } else { d };
        self.longest = self.longest.max(d);
        d
    }
    pub fn act(&mut self) -> Value {
        let kinds: &[(usize, &str)] = &[
            (6, "ok"),
            (2, "err"),
            (2, "early"),
            (6, "future"),
            (2, "future_err"),
            (2, "none"),
            (2, "now"),
            (3, "thread"),
            (1, "thread_err"),
            (1, "unser"),
            (1, "now_unser"),
            (1, "future_unser"),
            (1, "thread_unser"),
            (3, "twice"),
            (1, "never"),
            (if self.asks { 2 } else { 0 }, "via_ask"),
        ];
        let mut k = self.r.weighted(kinds).to_string();
        if k == "never" && !self.allow_never {
            k = "ok".into();
        }
        let mut a = json!({"tag": self.tag(), "k": k});
        if self.r.chance(60) {
            a["ns"] = json!(self.delay());
        }
        if self.r.chance(25) {
            a["notes"] = json!(self.r.range(1, 3));
        }
        if self.asks && self.r.chance(20) {
            a["asks"] = json!(self.r.range(1, 2));
        }
        if self.asks && self.r.chance(15) {
            a["fasks"] = json!(self.r.range(1, 2));
        }
        if self.r.chance(50) {
            a["how"] = json!(*self.r.pick(&["ok", "err", "dup", "never", "null"]));
        }
        if k == "via_ask" {
            a["how"] = json!(*self.r.pick(&["ok", "err", "dup", "null"]));
        }
        if self.asks && self.r.chance(25) {
            let f = *self.r.pick(&["rnotes", "rasks", "revs"]);
            a[f] = json!(self.r.range(1, 3));
        }
        if self.r.chance(12) {
            a["evs"] = json!(self.r.range(1, 3));
        } else if self.burst && self.r.chance(20) {
            self.burst = false;
            a["evs"] = json!(self.r.range(200, 2500));
        }
        if self.r.chance(20) {
            a["fnotes"] = json!(self.r.range(1, 4));
        }
        if self.r.chance(8) {
            a["fevs"] = json!(self.r.range(1, 2));
        }
        if self.r.chance(6) && self.allow_never && matches!(a["k"].as_str(), Some("future" | "future_err")) {
            let g = self.tag();
            self.gates.push(g);
            a["gate"] = json!(g);
        }
        if self.r.chance(7) {
            a["big"] = json!(if self.vast && self.r.chance(6) { self.r.range(100_000, 800_000) } else { *self.r.pick(&[10, 600, 5000, 5000, 40_000]) });
        }
        if self.r.chance(10) {
            a["pad"] = json!("漢é\r\n\r\nContent-Length: 3\r\n\r\n".repeat(self.r.range(1, 4)));
        } else if self.r.chance(4) {
            let n = if self.r.chance(15) {
                if self.r.chance(15) {
                    self.r.range(1_000_000, 2_500_000)
                } else {
                    self.r.range(60_000, 200_000)
                }
            } else { *self.r.pick(&[500, 4000, 9000]) };
            a["pad"] = json!("x".repeat(n));
        }
        a
    }
    pub fn req(&mut self, method: &str, params: Value) -> Value {
        let id = self.id();
        let style = if self.style { self.r.below(16) } else { 0 };
        if self.dap {
            let mut m = json!({"type": "request", "seq": id, "command": method});
            if !params.is_null() || self.r.chance(30) {
                m["arguments"] = params;
            }
            return json!({"t": "msg", "m": m, "style": style});
        }
        let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() || self.r.chance(30) {
            m["params"] = params;
        }
        json!({"t": "msg", "m": m, "style": style})
    }
    pub fn note(&mut self, method: &str, params: Value) -> Value {
        let style = if self.style { self.r.below(16) } else { 0 };
        if self.dap {
            self.nid += 1;
            let mut m = json!({"type": "event", "seq": self.nid, "event": method});
            if !params.is_null() {
                m["body"] = params;
            }
            return json!({"t": "msg", "m": m, "style": style});
        }
        let mut m = json!({"jsonrpc": "2.0", "method": method});
        if !params.is_null() || self.r.chance(30) {
            m["params"] = params;
        }
        json!({"t": "msg", "m": m, "style": style})
    }
    fn bad(&mut self) -> Value {
        match self.r.below(6) {
            0 => Value::Null,
            1 => json!([1, 2]),
            2 => json!({"tag": *self.r.pick(&["not a number", "漢字é漢字é漢字é漢字é漢字é", "aa漢字é漢字é漢字é漢字é"])}),
            3 => json!({}),
            4 => json!(*self.r.pick(&["text", "", "a漢字漢字漢字漢字漢字漢字漢字"])),
            _ => json!({"tag": self.tag(), "ns": -1}),
        }
    }
    pub fn init(&mut self) -> Value {
        let mut p = json!({"tag": self.tag()});
        if self.r.chance(15) {
            p["k"] = json!("fut");
            p["ns"] = json!(self.delay());
        } else if self.r.chance(5) {
            p["k"] = json!("err");
        } else if self.r.chance(5) {
            p["k"] = json!("early");
        }
        if self.r.chance(25) {
            p["notes"] = json!(self.r.range(1, 2));
        }
        if self.r.chance(20) {
            p["evs"] = json!(self.r.range(1, 3));
        }
        if self.asks && self.r.chance(40) {
            p["asks"] = json!(self.r.range(1, 3));
            p["how"] = json!(*self.r.pick(&["ok", "err", "dup", "null", "never"]));
            p["rnotes"] = json!(self.r.below(2));
        }
        self.req("initialize", p)
    }
    pub fn op(&mut self) -> Value {
        let typed = if self.dap {
            ["sim/typed", "sim/typed_", "sim/raw", "sim/typed_"]
        } else {
            ["sim/typed", "sim/typed_", "sim/raw", "cmd"]
        };
        let c = if self.r.chance(self.bad_pct) { 65 + self.r.below(11) } else { self.r.below(100) };
        match c {
            0..=44 => {
                let m = *self.r.pick(&typed);
                if m == "cmd" {
                    let a = self.act();
                    let p = match self.r.below(5) {
                        0 => json!({"command": "tinymist.getResources", "arguments": ["/sim/help", a]}),
                        1 => json!({"command": "tinymist.getResources", "arguments": ["/sim/raw", a]}),
                        2 => json!({"command": "sim.cmd_", "arguments": [a]}),
                        3 if self.r.chance(30) => json!({"command": "sim.cmd", "workDoneToken": *self.r.pick(&["w1", ""]), "arguments": [a, 1, null, "", {}, [], -2.5, [[]]]}),
                        _ => json!({"command": "sim.cmd", "arguments": [a, 1]}),
                    };
                    return self.req("workspace/executeCommand", p);
                }
                let a = self.act();
                self.req(m, a)
            }
            45..=64 => {
                let m = if self.dap { "sim/note_" } else { *self.r.pick(&["sim/note", "sim/note_"]) };
                let mut a = self.act();
                a.as_object_mut().unwrap().remove("gate");
                if !self.gates.is_empty() && self.r.chance(60) {
                    let g = self.gates.remove(0);
                    a["gate"] = json!(g);
                }
                self.note(m, a)
            }
            65..=71 => {
                let (m, b) = match self.r.below(8) {
                    0 | 1 => ("sim/typed", self.bad()),
                    2 => ("sim/raw", self.bad()),
                    3 => (*self.r.pick(STRANGE), self.bad()),
                    4 => ("initialize", self.bad()),
                    5 => ("workspace/executeCommand", self.bad()),
                    _ => {
                        let a = self.bad();
                        let c = *self.r.pick(&["sim.cmd", "sim.nope", "tinymist.getResources", "tinymist.getResources", "tinymist.getResources", "sim.cmd_", STRANGE[2], STRANGE[4], STRANGE[8], STRANGE[9]]);
                        let args = match self.r.below(6) {
                            5 => json!([*self.r.pick(&["/sim/help", "/sim/raw"]), a]),
                            0 => json!([]),
                            1 => json!([a]),
                            2 => json!([*self.r.pick(STRANGE), a]),
                            3 => json!(["/sim/help"]),
                            _ => json!([a, a]),
                        };
                        ("workspace/executeCommand", json!({"command": c, "arguments": args}))
                    }
                };
                self.req(m, b)
            }
            72..=75 => {
                let b = self.bad();
                let m = *self.r.pick(&["sim/note", "sim/note_", "$/unknown", "initialized", "textDocument/didOpen", STRANGE[2], STRANGE[3], STRANGE[4], STRANGE[8], STRANGE[9]]);
                self.note(m, b)
            }
            76..=79 => {
                let a = self.r.below(4);
                match a {
                    0 => self.init(),
                    1 if self.dap => json!({"t":"msg","style":0,"m":{"type":"response","seq":1,"request_seq": self.r.below(5),"success":true,"command":"x"}}),
                    1 => {
                        let id = match self.r.below(3) {
                            0 => json!("never-sent"),
                            1 => json!(900_000 + self.r.below(50)),
                            _ => json!(-7),
                        };
                        json!({"t":"msg","style":0,"m":{"jsonrpc":"2.0","id":id,"result":null}})
                    }
                    _ => self.note("initialized", json!({})),
                }
            }
            80..=87 => json!({"t": "pause", "ns": self.delay()}),
            88..=93 => json!({"t": "settle"}),
            _ => json!({"t": "pause", "ns": 0}),
        }
    }
}
/// Names nothing is registered under.
const STRANGE: &[&str] = &[
    "sim/unknown",
    "/sim/nope",
    "sim/mé漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字",
    "",
    "/",
    "..",
    "a\u{0}b",
    "tinymist.\r\n\r\nContent-Length: 2\r\n\r\n{}",
    // cut anywhere, one of these is cut inside a character
    "\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}",
    "x\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}",
];
const FAULTS: &[&str] = &[
    "short_read", "read_eintr", "short_write", "write_eintr", "delayed_chunk", "peer_stall", "spurious_futex_wake",
    "duplicate_message", "reordered_delivery", "delivery_delay",
];

pub fn gen_session(r: &mut Rng, env: &Env, dap: bool) -> Value {
    gen_session_with(r, env, dap, true, true)
}
pub fn gen_session_with(r: &mut Rng, env: &Env, dap: bool, can_ask: bool, allow_never: bool) -> Value {
    let t = env.target.as_str();
    let rates = gen_rates(r, FAULTS, 30);
    let nsrc = if r.chance(if t == "L03" { 70 } else { 30 }) { r.range(1, 3) } else { 0 };
    let ds: Vec<Value> = (0..nsrc)
        .map(|_| {
            let k = r.range(1, 5);
            if r.chance(2) {
                return json!(vec![0u64; r.range(100, 1500)]);
            }
            json!((0..k).map(|_| *r.pick(&[0u64, 0, 1, 3, 2000, 100_000, 1_000_001, 3_000_003])).collect::<Vec<u64>>())
        })
        .collect();
    let idmode = r.below(8);
    let style = r.chance(30);
    let n = match r.below(10) {
        0..=3 => r.range(2, 6),
        4..=7 => r.range(5, 14),
        _ => r.range(12, if env.thorough { 60 } else { 30 }),
    };
    let asks = r.chance(if t == "L04" { 95 } else { 40 }) && can_ask;
    let burst = r.chance(if t == "L03" || t == "D01" { 5 } else { 1 });
    let far = can_ask && r.chance(6);
    let mut g = Gen { r, far, tag: 10, nid: 0, idmode, dap, gates: vec![], allow_never, style, asks, longest: 0, burst, vast: can_ask, bad_pct: if t == "L10" { 25 } else { 0 } };
    let raw_down = dap || g.r.chance(50);
    let mut ops: Vec<Value> = vec![];
    // before initialization
    let early = if t == "L02" { 60 } else { 15 };
    if g.r.chance(early) {
        for _ in 0..g.r.range(1, 3) {
            let o = g.op();
            if o["m"]["method"] != "exit" {
                ops.push(o);
            }
        }
    }
    let skip = if t == "L02" { 12 } else { 4 };
    if !g.r.chance(skip) {
        ops.push(g.init());
        if g.r.chance(early) {
            for _ in 0..g.r.range(1, 3) {
                ops.push(g.op());
            }
        }
        if !dap && !g.r.chance(skip) {
            ops.push(g.note("initialized", json!({})));
        }
    }
    for _ in 0..n {
        ops.push(g.op());
    }
    if g.r.chance(if t == "L01" || t == "L10" { 5 } else { 1 }) {
        // many requests in flight at once
        let k = ops.len() - g.r.below(n + 1);
        let mut many = vec![];
        let most = if can_ask && g.r.chance(15) { 1500 } else { 400 };
        for _ in 0..g.r.range(70, most) {
            let a = json!({"tag": g.tag(), "k": *g.r.pick(&["ok", "future", "future", "future_err", "none"]), "ns": *g.r.pick(&[0, 1_000_000, 900_000_000])});
            many.push(g.req("sim/typed_", a));
        }
        ops.splice(k..k, many);
    }
    if !g.dap && can_ask && g.r.chance(if t == "L01" { 20 } else { 5 }) {
        // ids used again, as by a client with a small counter
        for o in &mut ops {
            if o["t"] == "msg" && o["m"].get("id").is_some() && o["m"].get("method").is_some() && g.r.chance(40) {
                o["reuse"] = json!(g.r.below(100));
            }
        }
    }
    if g.r.chance(8) {
        // the same notification several times in a row
        let k = ops.len() - g.r.below(n + 1);
        let a = json!({"tag": g.tag(), "k": "ok", "notes": g.r.below(3), "ns": 0});
        let o = g.note("sim/note_", a);
        for _ in 0..g.r.range(2, 6) {
            ops.insert(k, o.clone());
        }
    }
    if asks && g.r.chance(if t == "L04" { 6 } else { 1 }) {
        // many requests of the server unanswered at once
        let k = ops.len() - g.r.below(n + 1);
        let f = *g.r.pick(&["asks", "fasks"]);
        let a = json!({"tag": g.tag(), "k": "ok", f: if g.r.chance(20) { g.r.range(1000, 1500) } else { g.r.range(60, 400) }, "how": *g.r.pick(&["ok", "err", "never"])});
        let o = g.note("sim/note", a);
        ops.insert(k, o);
    }
    let end = *g.r.weighted(&[
        (5, "proper"),
        (3, "exit_now"),
        (3, "shutdown_more"),
        (3, "eof"),
        (2, "eof_mid"),
        (2, "garbage"),
        (2, "out_closed"),
        (2, "out_error"),
        (1, "in_error"),
        (2, "settle_eof"),
    ]);
    let down = |g: &mut Gen| {
        if dap {
            let p = match g.r.below(10) {
                0..=5 => g.act(),
                6 | 7 => json!({}),
                8 => Value::Null,
                _ => json!({"restart": true, "terminateDebuggee": false}),
            };
            g.req("disconnect", p)
        } else {
            let p = if raw_down && g.r.chance(80) { g.act() } else { Value::Null };
            g.req("shutdown", p)
        }
    };
    let exit = |g: &mut Gen, ops: &mut Vec<Value>| {
        // or the client is just gone
        if !dap && !g.r.chance(15) {
            let e = g.note("exit", Value::Null);
            ops.push(e);
        }
    };
    match end {
        "proper" => {
            ops.push(json!({"t": "settle"}));
            ops.push(down(&mut g));
            ops.push(json!({"t": "settle"}));
            exit(&mut g, &mut ops);
        }
        "shutdown_more" => {
            ops.push(down(&mut g));
            for _ in 0..g.r.range(1, 4) {
                ops.push(g.op());
            }
            if g.r.chance(50) {
                ops.push(json!({"t": "settle"}));
            }
            exit(&mut g, &mut ops);
        }
        "exit_now" => exit(&mut g, &mut ops),
        "settle_eof" => ops.push(json!({"t": "settle"})),
        "out_closed" | "out_error" => {
            let k = g.r.below(ops.len() + 1);
            let o = if end == "out_closed" { json!({"t": "close_out"}) } else { json!({"t": "out_error", "e": *g.r.pick(&[libc::EIO, libc::ENOSPC, libc::EAGAIN])}) };
            ops.insert(k, o);
            if g.r.chance(50) {
                exit(&mut g, &mut ops);
            }
        }
        _ => {}
    }
    ops.push(match end {
        "eof_mid" => json!({"t": "partial", "n": if g.r.chance(70) { g.r.range(1, 60) } else { 1_000_000 + g.r.below(4) }, "style": if g.r.chance(40) { 11 } else { 0 }, "m": g.op()["m"].clone()}),
        "garbage" => json!({"t": "garbage", "k": g.r.below(GARBAGE)}),
        "in_error" => json!({"t": "in_error"}),
        _ => json!({"t": "eof"}),
    });
    json!({
        "workers": g.r.range(1, 3),
        "cap_in": *g.r.pick(&[64, 700, 65536]), "cap_out": *g.r.pick(&[32, 500, 65536, 65536]),
        "chunks": g.r.chance(60), "reader_stall": *g.r.pick(&[0u64, 0, 0, 20_000, 300_000]),
        "sources": ds, "raw_down": raw_down, "rates": rates, "far": far, "exit_handler": g.r.chance(40), "ops": ops,
    })
}
pub fn gen_lsp(r: &mut Rng, e: &Env) -> Value {
    gen_session(r, e, false)
}
pub fn gen_dap(r: &mut Rng, e: &Env) -> Value {
    gen_session(r, e, true)
}

// ---- one run ----------------------------------------------------------------------

const GARBAGE: usize = 22;
/// A message that must not be acted on.
fn intruder(dap: bool, pad: &str) -> Value {
    if dap {
        json!({"seq":999_999,"type":"request","command":"sim/typed","arguments":{"tag":9,"pad":pad}})
    } else {
        json!({"jsonrpc":"2.0","id":999_999,"method":"sim/typed","params":{"tag":9,"pad":pad}})
    }
}
pub fn garbage(k: u64, dap: bool) -> Vec<u8> {
    let f = frame(&intruder(dap, "PAD"), 0);
    let body = intruder(dap, "PAD").to_string();
    let n = body.len();
    let with = |h: &str, b: &str| format!("{h}\r\n\r\n{b}").into_bytes();
    match k {
        0 => b"Content-Length 12\r\n\r\n{}".to_vec(),
        1 => b"Content-Length: x\r\n\r\n{}".to_vec(),
        2 => b"Content-Length: 5\r\n\r\n{\"a\":".to_vec(),
        3 => b"Content-Length: 4\r\n\r\nnull".to_vec(),
        4 => b"\r\n{}".to_vec(),
        5 => b"Content-Length: 2\n\n{}".to_vec(),
        6 => b"Content-Length: 2\r\n\r\n\xff\xfe".to_vec(),
        7 => b"{\"jsonrpc\":\"2.0\",\"id\":77,\"method\":\"sim/typed\"}\r\n".to_vec(),
        8 => b"Content-Length: 2\r\n\r\n{}".to_vec(),
        9 => [b"oops\n", &f[..]].concat(),
        10 => [b"\n", &f[..]].concat(),
        11 => [b"oops\r\n", &f[..]].concat(),
        // a message whose text is not UTF-8
        12 => {
            let i = f.windows(3).position(|w| w == b"PAD").unwrap();
            let mut f = f.clone();
            f[i + 1] = 0xff;
            f
        }
        13 => b"Content-Length: 0\r\n\r\n".to_vec(),
        14 => with("Content-Type: application/vscode-jsonrpc", &body),
        15 => with(&format!("Content-Length: -{n}"), &body),
        16 => with(&format!("Content-Length: {}", n + 2), &format!("[{body}]")),
        17 => with(&format!("Content-Length: {}", n + 2), &format!("{body} x")),
        18 => with(&format!("Content-Length: {}", n - 1), &body),
        19 => with(&format!("Content-Length: {}", n + 1), &body),
        20 => with(&format!("Content-Length: {n}.0"), &body),
        _ => with(&format!("Content-Length: {}", n + 1), &format!("{{{body}")),
    }
}
pub struct Play {
    pub out_closed: bool,
    pub ended: bool,
    pub cut: usize,
}
/// The ids of the requests that are answered and not in use again.
fn free_ids() -> Vec<Value> {
    let mut open: HashMap<String, i64> = HashMap::new();
    for m in &w().wire {
        if m.get("id").is_some() && m.get("method").is_some() {
            *open.entry(m["id"].to_string()).or_default() += 1;
        }
    }
    let mut free = vec![];
    for e in &w().ev {
        let Ev::Out(m) = e else { continue };
        if m.get("id").is_some() && m.get("method").is_none() {
            let n = open.entry(m["id"].to_string()).or_default();
            *n -= 1;
            if *n == 0 {
                free.push(m["id"].clone());
            }
        }
    }
    free
}
/// Lets the scripted client act; settles and checks on the way.
pub fn play(cfg: &Value, vw: &mut View, checks: bool) -> Play {
    let mut pl = Play { out_closed: false, ended: false, cut: usize::MAX };
    for op in cfg["ops"].as_array().unwrap() {
        let w = w();
        match op["t"].as_str().unwrap() {
            "msg" => {
                if pl.ended {
                    continue;
                }
                let mut m = op["m"].clone();
                if let Some(k) = op["reuse"].as_u64() {
                    let free = free_ids();
                    if !free.is_empty() {
                        hit(P::reused_ids);
                        m["id"] = free[k as usize % free.len()].clone();
                    }
                }
                send(m, op["style"].as_u64().unwrap_or(0));
                if op["m"]["method"] == "exit" && !vw.dap {
                    // whatever the client says from here on is not read
                    pl.cut = pl.cut.min(w.wire.len());
                }
            }
            "pause" => simrt::sleep(op["ns"].as_u64().unwrap()),
            "settle" => {
                hit(P::settles);
                // long enough for the slowest answer of a session to be replayed
                quiesce(match () {
                    _ if cfg["mirror"] == true => 130,
                    _ if cfg["far"] == true => 20_000,
                    _ => 40,
                });
                if cfg["mirror"] == true {
                    check_mirror(cfg, vw, false);
                }
                if checks && pl.cut == usize::MAX && !pl.ended {
                    vw.out_closed |= w.stdout.failed_at().is_some();
                    vw.cut = w.wire.len();
                    check(vw, true, false);
                }
            }
            "close_out" => {
                hit(P::output_closed);
                simrt::count_fault(simrt::sched::F_EPIPE);
                pl.out_closed = true;
                vw.out_closed = true;
                w.stdout.close_read();
            }
            "out_error" => {
                hit(P::output_failed);
                simrt::count_fault(simrt::sched::F_OUT);
                w.stdout.set_write_error(op["e"].as_i64().unwrap() as i32);
            }
            "partial" => {
                seize_wire();
                hit(P::eof_mid_message);
                simrt::count_fault(simrt::sched::F_EOF);
                pl.cut = pl.cut.min(w.wire.len());
                let f = frame(&op["m"], op["style"].as_u64().unwrap_or(0));
                let n = op["n"].as_u64().unwrap() as usize;
                let n = if n >= 1_000_000 { f.len() - 1 - (n - 1_000_000) } else { n.min(f.len() - 1) };
                w.in_bytes.extend(&f[..n]);
                w.stdin.put(&f[..n]);
                w.stdin.close_write();
                pl.ended = true;
            }
            "garbage" => {
                seize_wire();
                hit(P::garbage_frames);
                simrt::count_fault(simrt::sched::F_GARBAGE);
                pl.cut = pl.cut.min(w.wire.len());
                let b = garbage(op["k"].as_u64().unwrap(), vw.dap);
                w.in_bytes.extend(&b);
                w.stdin.put(&b);
                // what follows must not be interpreted as messages
                let f = frame(&intruder(vw.dap, ""), 0);
                w.in_bytes.extend(&f);
                w.stdin.put(&f);
                w.stdin.close_write();
                pl.ended = true;
            }
            "in_error" => {
                seize_wire();
                hit(P::input_error);
                simrt::count_fault(simrt::sched::F_EIO_R);
                pl.cut = pl.cut.min(w.wire.len());
                w.stdin.set_read_error(libc::EIO);
                pl.ended = true;
            }
            "eof" => {
                hit(P::eof_at_boundary);
                seize_wire();
                pl.cut = pl.cut.min(w.wire.len());
                w.stdin.close_write();
                pl.ended = true;
            }
            _ => simrt::harness_error("unknown op"),
        }
    }
    vw.out_closed |= w().stdout.failed_at().is_some();
    if !pl.ended {
        seize_wire();
        pl.cut = pl.cut.min(w().wire.len());
        w().stdin.close_write();
        pl.ended = true;
    }
    pl
}
/// Lets everything run until nothing has happened for `secs`.
fn quiesce(secs: u64) {
    for _ in 0..60 {
        let n = (w().stdout.total(), w().stdin.total(), w().ev.len());
        simrt::wait_idle(simrt::now() + secs * S);
        if n == (w().stdout.total(), w().stdin.total(), w().ev.len()) {
            break;
        }
    }
}
/// Waits for the server to end; reports it if it does not.
pub fn await_end(vw: &View, secs: u64, what: &str) {
    let w = w();
    quiesce(secs);
    if w.main_done.is_none() {
        vw.v(&["L07"], "no-end", format!("the server has not ended {secs} s after {what}; {}", simrt::thread_states()));
        simrt::harness_error("the server does not end");
    }
    simrt::trace_msg(&format!("server ended: {:?}", w.main_done));
}
pub fn drain() {
    let w = w();
    w.stdout.close_write();
    simrt::wait_idle(simrt::now() + 5 * S);
    if !w.reader_gone {
        simrt::harness_error("the client's reader does not end");
    }
}
/// What has to follow from a failed write of the output, or from none.
fn check_output_failure(vw: &View) {
    let w = w();
    match (w.stdout.failed_at(), &w.main_done) {
        (None, Some(Err(e))) => {
            vw.v(&["L07"], "failed", format!("the transport reports an error although nothing failed on its output: {e}"));
        }
        (Some(_), Some(Ok(()))) => {
            vw.v(&["L07"], "not-failed", "writing the output failed, the server reports success".into());
        }
        _ => {}
    }
    if let Some(n) = w.stdout.failed_at() {
        // A buffer may still hand over the rest of the frame that failed, but
        // nothing comes after it.
        let (mut at, n) = (0, n as usize);
        let end = loop {
            match crate::world::parse_frame(&w.out_bytes[at..]) {
                Ok(Some((_, len))) if at + len > n => break at + len,
                Ok(Some((_, len))) => at += len,
                Ok(None) => break usize::MAX,
                Err(_) => break n,
            }
        };
        if w.stdout.total() as usize > end {
            vw.v(&["L06"], "after-failure", format!("{} bytes are written after the frame that could not be written", w.stdout.total() as usize - end));
        }
    }
}
pub fn run_session(cfg: &Value, dap: bool) {
    new_world(dap, cfg);
    let c = cfg.clone();
    std::thread::spawn(move || server_main(c, String::new(), String::new()));
    std::thread::spawn(client_reader);
    std::thread::spawn(client_responder);
    let mut vw = View { dap, exit_handler: cfg["exit_handler"] == true, out_closed: false, cut: usize::MAX, extra: vec![], replay: false };
    let pl = play(cfg, &mut vw, true);
    await_end(&vw, if cfg["far"] == true { 20_000 } else { 60 }, "its input ended");
    drain();
    vw.cut = pl.cut;
    vw.out_closed = pl.out_closed || w().stdout.failed_at().is_some();
    check(&vw, false, true);
    check_output_failure(&vw);
    hit(P::proper_shutdowns);
}
pub fn run_lsp(cfg: &Value) {
    run_session(cfg, false)
}
pub fn run_dap(cfg: &Value) {
    run_session(cfg, true)
}

// ---- record and replay --------------------------------------------------------------

const MIRROR: &str = "mirror.log";
fn scratch_file(n: &str) -> String {
    let s = simrt::shm::shm();
    format!("{}/{n}", std::str::from_utf8(&s.scratch[..s.scratch_len as usize]).unwrap())
}
pub fn gen_mirror(r: &mut Rng, e: &Env) -> Value {
    let dap = r.chance(25);
    let stuck = r.chance(if e.target == "L09" { 8 } else { 3 });
    let mut c = loop {
        let c = gen_session_with(r, e, dap, false, stuck);
        if !c["ops"].as_array().unwrap().iter().any(|o| o["t"] == "close_out" || o["t"] == "out_error") || r.chance(10) {
            break c;
        }
    };
    // how long the replay waits at most, if its environment says so
    let limit = *r.weighted(&[(8, ""), (1, "20"), (1, "110"), (1, "soon")]);
    c["limit"] = json!(limit);
    if r.chance(if e.target == "L09" { 15 } else { 5 }) {
        // an answer that takes its time
        let longest = limit.parse().map_or(36, |l: usize| l * 6 / 10);
        let ops = c["ops"].as_array_mut().unwrap();
        let at = r.below(ops.len() + 1);
        let a = json!({"tag": 9_000_001, "k": "future", "ns": r.range(longest / 2, longest) as u64 * S});
        let m = if dap {
            json!({"type": "request", "seq": 9_000_001, "command": "sim/typed", "arguments": a})
        } else {
            json!({"jsonrpc": "2.0", "id": 9_000_001, "method": "sim/typed", "params": a})
        };
        ops.insert(at, json!({"t": "msg", "m": m, "style": 0}));
    }
    c["dap"] = json!(dap);
    c["mirror"] = json!(true);
    c["stale"] = json!(r.chance(25));
    // a failing disk under the recording
    if r.chance(25) {
        for n in ["disk_full", "write_error"] {
            if r.chance(60) {
                c["rates"][n] = json!(*r.pick(&[5u32, 50, 300, 1000]));
            }
        }
    }
    c
}
fn recorded() -> Vec<u8> {
    simrt::quiet(|| std::fs::read(scratch_file(MIRROR)).unwrap_or_default())
}
/// The recording against what the client wrote and what the server handled.
fn check_mirror(cfg: &Value, vw: &View, finished: bool) {
    let w = w();
    let lossy = simrt::shm::shm().fired[simrt::sched::F_ENOSPC as usize] + simrt::shm::shm().fired[simrt::sched::F_EIO_W as usize] > 0;
    if lossy {
        hit(P::mirror_disk_failed);
        return;
    }
    let m = recorded();
    if m.len() > w.in_bytes.len() || m[..] != w.in_bytes[..m.len()] {
        let k = m.iter().zip(&w.in_bytes).take_while(|(a, b)| a == b).count();
        vw.v(&["L08"], "mirror-differs", format!("the recording ({} bytes) differs from the client's bytes at offset {k}", m.len()));
        return;
    }
    let exp = model(&w.wire, vw.dap, vw.exit_handler);
    let n = w.ev.iter().filter(|e| matches!(e, Ev::Disp(..))).count();
    let mut need = 0;
    let mut k = 0;
    for (i, e) in exp.iter().enumerate() {
        if e.disp.is_some() {
            k += 1;
            if k <= n {
                need = w.wire_end[i];
            }
        }
    }
    if finished && !vw.out_closed {
        let c = vw.cut.min(w.wire.len());
        if c > 0 {
            need = need.max(w.wire_end[c - 1]);
        }
        let ops = cfg["ops"].as_array().unwrap();
        let exited = !vw.dap && w.wire.iter().any(|m| m["method"] == "exit");
        if !exited && ops.last().is_some_and(|o| o["t"] == "partial") {
            need = w.in_bytes.len();
        }
        if exited && m.len() > need {
            vw.v(&["L08"], "mirror-past-exit", format!("the recording goes on for {} bytes after exit", m.len() - need));
        }
    }
    hit(P::mirror_checked);
    if m.len() < need {
        vw.v(&["L08"], "mirror-short", format!("the recording has {} bytes, messages up to byte {need} were handled", m.len()));
    }
}
pub fn run_mirror(cfg: &Value) {
    let dap = cfg["dap"] == true;
    new_world(dap, cfg);
    w().panic_props = vec!["L08"];
    let c = cfg.clone();
    if cfg["stale"] == true {
        // an older, longer recording is there already
        simrt::quiet(|| std::fs::write(scratch_file(MIRROR), frame(&intruder(dap, &"old ".repeat(4000)), 0))).unwrap();
    }
    std::thread::spawn(move || server_main(c, scratch_file(MIRROR), String::new()));
    std::thread::spawn(client_reader);
    let mut vw =
        View { dap, exit_handler: cfg["exit_handler"] == true, out_closed: false, cut: usize::MAX, extra: vec!["L08"], replay: false };
    let pl = play(cfg, &mut vw, true);
    await_end(&vw, 60, "its input ended");
    drain();
    vw.cut = pl.cut;
    vw.out_closed = pl.out_closed || w().stdout.failed_at().is_some();
    check(&vw, false, true);
    check_output_failure(&vw);
    check_mirror(cfg, &vw, true);
    let sh = simrt::shm::shm();
    if vw.out_closed || sh.fired[simrt::sched::F_ENOSPC as usize] + sh.fired[simrt::sched::F_EIO_W as usize] > 0 {
        return;
    }
    // ---- the recording as input
    let m = recorded();
    let old = w();
    let k = old.wire_end.iter().take(old.wire.len().min(pl.cut)).take_while(|e| **e <= m.len()).count();
    let wire: Vec<Value> = old.wire[..k].to_vec();
    sh.rate[simrt::sched::F_ENOSPC as usize] = 0;
    sh.rate[simrt::sched::F_EIO_W as usize] = 0;
    hit(P::replays);
    new_world(dap, cfg);
    w().wire = wire;
    let exp = model(&w().wire, dap, vw.exit_handler);
    let opened: Vec<u64> = exp.iter().zip(&w().wire).filter(|(e, _)| e.disp.is_some_and(|d| d.0 == 'n')).filter_map(|(_, m)| {
        let p = if dap { &m["body"] } else { &m["params"] };
        p["gate"].as_u64()
    }).collect();
    let stuck = exp.iter().any(|e| match &e.resp {
        Resp::Never => true,
        Resp::Gated(g, _) => !opened.contains(g),
        _ => false,
    });
    w().may_panic = stuck;
    w().panic_props = vec!["L09"];
    let mut c = cfg.clone();
    c["sources"] = json!([]);
    let limit = cfg["limit"].as_str().unwrap_or("");
    if !limit.is_empty() {
        std::env::set_var("REPLAY_TIMEOUT", limit);
    }
    let limit = limit.parse().unwrap_or(60);
    std::thread::spawn(move || server_main(c, String::new(), scratch_file(MIRROR)));
    std::thread::spawn(client_reader);
    let rv = View { dap, exit_handler: vw.exit_handler, out_closed: false, cut: usize::MAX, extra: vec!["L09"], replay: true };
    await_end(&rv, 200, "its input ended");
    let spent = w().done_at - w().loop_end;
    if spent > (limit + 15) * S {
        rv.v(&["L09"], "replay-late", format!("the replay ended {} s after its input, the limit is {limit} s", spent / S));
    }
    drain();
    hit(if stuck { P::replays_with_stuck_requests } else { P::replays_waited });
    check(&rv, true, true);
    if let Some(Err(e)) = &w().main_done {
        rv.v(&["L09"], "failed", format!("the replay reports an error: {e}"));
    }
}
