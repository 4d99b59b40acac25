//! P15: the language server against a reference store.
//!
//! The explored system is the real kdl-lsp binary on its stdin and stdout.  A
//! session is a sequence of editor messages; the reference is a map from
//! documents to their latest text, the library's own diagnostics for it (what
//! the other properties judge), and the protocol's definition of a position.

use crate::run::*;
use crate::spaces;
use kdl_full::KdlDocument;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError, channel};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Duration;

/// Finding out which message killed a server takes long: a few times is enough.
static DIED: AtomicU64 = AtomicU64::new(0);
fn gave_up() -> bool {
    DIED.load(Relaxed) >= 4
}

// ------------------------------------------------------------- the server

struct Server {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<Value>,
    next_id: u64,
    docs: u64,
}

fn frame(v: &Value) -> Vec<u8> {
    let s = v.to_string();
    format!("Content-Length: {}\r\n\r\n{s}", s.len()).into_bytes()
}

impl Server {
    fn start() -> Server {
        let path = std::env::var("KDLMC_LSP").expect("KDLMC_LSP");
        let mut child = Command::new(path)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .env_remove("RUST_LOG")
            .spawn()
            .expect("kdl-lsp does not start");
        let stdin = child.stdin.take();
        let mut out = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            loop {
                let mut len = 0usize;
                loop {
                    let mut line = String::new();
                    match out.read_line(&mut line) {
                        Ok(n) if n > 0 => {}
                        _ => return,
                    }
                    let line = line.trim_end();
                    if line.is_empty() {
                        break;
                    }
                    if let Some((k, v)) = line.split_once(':')
                        && k.eq_ignore_ascii_case("content-length")
                    {
                        len = v.trim().parse().unwrap_or(0);
                    }
                }
                let mut buf = vec![0; len];
                if out.read_exact(&mut buf).is_err() {
                    return;
                }
                let v = serde_json::from_slice(&buf).unwrap_or(Value::Null);
                if tx.send(v).is_err() {
                    return;
                }
            }
        });
        Server { child, stdin, rx, next_id: 1, docs: 0 }
    }

    fn request(&mut self, method: &str, params: Value) -> (u64, Vec<u8>) {
        let id = self.next_id;
        self.next_id += 1;
        (id, frame(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params})))
    }

    /// Writes the bytes (from another thread, so that a server which stops
    /// reading cannot block us) and waits for the answers to `ids`.
    fn exchange(&mut self, bytes: Vec<u8>, ids: &[u64]) -> Result<HashMap<u64, Value>, String> {
        let mut got = HashMap::new();
        let mut w = self.stdin.take().ok_or("not running")?;
        let writer = std::thread::spawn(move || {
            let r = w.write_all(&bytes).and_then(|_| w.flush());
            (w, r)
        });
        let mut left: std::collections::HashSet<u64> = ids.iter().copied().collect();
        let mut quiet = 0;
        while !left.is_empty() {
            match self.rx.recv_timeout(Duration::from_secs(1)) {
                Ok(v) => {
                    quiet = 0;
                    if v.get("method").is_some() {
                        continue; // a log message, or a request of the server
                    }
                    let Some(id) = v["id"].as_u64() else { return Err(format!("answer without id: {v}")) };
                    if !left.remove(&id) {
                        return Err(format!("two answers, or one to no request: {v}"));
                    }
                    got.insert(id, v);
                }
                Err(RecvTimeoutError::Timeout) => {
                    quiet += 1;
                    if quiet == 45 {
                        let _ = self.child.kill();
                        return Err("the server stopped answering".into());
                    }
                }
                Err(RecvTimeoutError::Disconnected) => {
                    return Err(format!("the server ended: {:?}", self.child.wait()));
                }
            }
        }
        match writer.join().unwrap() {
            (w, Ok(())) => self.stdin = Some(w),
            (_, Err(e)) => return Err(format!("the server closed its input: {e}")),
        }
        Ok(got)
    }

    fn initialize(&mut self) -> Result<Value, String> {
        let (id, mut b) = self.request("initialize", json!({"processId": null, "rootUri": null, "capabilities": {}}));
        b.extend(frame(&json!({"jsonrpc": "2.0", "method": "initialized", "params": {}})));
        let mut r = self.exchange(b, &[id])?;
        Ok(r.remove(&id).unwrap())
    }

    fn ready() -> Result<Server, String> {
        let mut s = Server::start();
        s.initialize()?;
        Ok(s)
    }

    /// Shuts down in order; the process has to end by itself, successfully.
    fn finish(mut self) -> Result<(), String> {
        let id = self.next_id;
        let mut b = frame(&json!({"jsonrpc": "2.0", "id": id, "method": "shutdown"}));
        let r = self.exchange(std::mem::take(&mut b), &[id])?;
        if r[&id].get("error").is_some() {
            return Err(format!("shutdown: {}", r[&id]));
        }
        if let Some(mut w) = self.stdin.take() {
            let _ = w.write_all(&frame(&json!({"jsonrpc": "2.0", "method": "exit"})));
            let _ = w.flush();
            // (dropping it closes the pipe)
        }
        for _ in 0..1000 {
            if let Ok(Some(st)) = self.child.try_wait() {
                return if st.success() { Ok(()) } else { Err(format!("ended with {st}")) };
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        Err("does not end after exit".into())
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ------------------------------------------------------------ the reference

/// Where a byte offset is, by the protocol: lines end with \n, \r\n or \r, and
/// columns are UTF-16 units.
fn position(text: &str, off: usize) -> (u64, u64) {
    let (mut line, mut col) = (0, 0);
    let mut it = text.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if i >= off {
            break;
        }
        let crlf = c == '\r' && matches!(it.peek(), Some((_, '\n')));
        if (c == '\n' || c == '\r') && !crlf {
            line += 1;
            col = 0;
        } else {
            // (between \r and \n: behind the end of the line)
            col += c.len_utf16() as u64;
        }
    }
    (line, col)
}

type Item = (u64, u64, u64, u64, u64, String);

fn expected(text: Option<&str>) -> Vec<Item> {
    let Some(text) = text else { return vec![] };
    let Err(e) = KdlDocument::parse(text) else { return vec![] };
    let mut out: Vec<Item> = e
        .diagnostics
        .iter()
        .map(|d| {
            let (sl, sc) = position(text, d.span.offset());
            let (el, ec) = position(text, d.span.offset() + d.span.len());
            let sev = match d.severity {
                miette::Severity::Error => 1,
                miette::Severity::Warning => 2,
                miette::Severity::Advice => 4,
            };
            (sl, sc, el, ec, sev, d.to_string())
        })
        .collect();
    out.sort();
    out
}

fn reported(v: &Value) -> Result<Vec<Item>, String> {
    let r = v.get("result").ok_or(format!("no result: {v}"))?;
    if r["kind"] != "full" {
        return Err(format!("not a full report: {r}"));
    }
    let mut out = vec![];
    for d in r["items"].as_array().ok_or("no items")? {
        let n = |w: &str, k: &str| d["range"][w][k].as_u64().ok_or(format!("bad range: {d}"));
        let m = d["message"].as_str().ok_or(format!("no message: {d}"))?;
        out.push((
            n("start", "line")?,
            n("start", "character")?,
            n("end", "line")?,
            n("end", "character")?,
            d["severity"].as_u64().unwrap_or(0),
            m.to_string(),
        ));
    }
    out.sort();
    Ok(out)
}

fn judge(got: &Value, text: Option<&str>) -> Outcome {
    let want = expected(text);
    match reported(got) {
        Err(e) => fail("no-report", e),
        Ok(r) if r == want => Ok(match (text.is_some(), want.len()) {
            (false, _) => "no-text",
            (_, 0) => "valid",
            (_, 1) => "1-diagnostic",
            (_, 2) => "2-diagnostics",
            _ => "3+-diagnostics",
        }),
        Ok(r) => {
            let msgs = |v: &[Item]| {
                let mut m: Vec<String> = v.iter().map(|i| i.5.clone()).collect();
                m.sort();
                m
            };
            let sig = if msgs(&r) != msgs(&want) { "wrong-diagnostics" } else { "wrong-positions" };
            fail(sig, format!("text {text:?}: reported {r:?}, expected {want:?}"))
        }
    }
}

// ---------------------------------------------------------------- sessions

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Open(usize, usize),
    Change(usize, &'static [usize]),
    Save(usize, Option<usize>),
    Close(usize),
    Ask(usize),
    /// messages that are not about a document's text
    Noise(usize),
}

const TEXTS: &[&str] = &[
    "a b=1\n",
    // (as long as the first)
    "a\n b )",
    "é😀 \"x\n}\r\nb )",
    "\n\n 😀=1=2",
    "",
];
const NOISE: usize = 6;
const NAMES: &[&str] = &["a.kdl", "b%20%C3%A9.kdl", "A.kdl"];

fn show(op: &Op) -> String {
    match op {
        Op::Open(d, t) => format!("open{d}:{t}"),
        Op::Change(d, ts) => format!("change{d}:{ts:?}"),
        Op::Save(d, Some(t)) => format!("save{d}:{t}"),
        Op::Save(d, None) => format!("save{d}"),
        Op::Close(d) => format!("close{d}"),
        Op::Ask(d) => format!("ask{d}"),
        Op::Noise(k) => format!("noise{k}"),
    }
}

fn ops(docs: usize, texts: &[usize], full: bool) -> Vec<Op> {
    let mut out = vec![];
    for d in 0..docs {
        for &t in texts {
            out.push(Op::Open(d, t));
        }
        for &t in texts {
            out.push(Op::Change(d, match t { 0 => &[0], 1 => &[1], 2 => &[2], 3 => &[3], _ => &[4] }));
        }
        out.push(Op::Change(d, &[1, 0]));
        if full {
            out.push(Op::Change(d, &[0, 2, 1]));
            out.push(Op::Change(d, &[]));
        }
        out.push(Op::Save(d, None));
        for &t in &texts[..texts.len().min(2)] {
            out.push(Op::Save(d, Some(t)));
        }
        out.push(Op::Close(d));
        out.push(Op::Ask(d));
    }
    if full {
        out.extend((0..NOISE).map(Op::Noise));
    }
    out
}

/// What the editor has: for each document, whether it is open, and its text if
/// the protocol defines it.
#[derive(Clone, Copy, PartialEq)]
enum Doc {
    Closed,
    Open(usize),
    /// messages about a document that is not open: nothing is promised about
    /// its text before it is opened the next time
    Unspecified,
}

fn step(docs: &mut [Doc], op: Op) {
    match op {
        Op::Open(d, t) => docs[d] = Doc::Open(t),
        Op::Change(d, ts) => match docs[d] {
            Doc::Open(t) => docs[d] = Doc::Open(*ts.last().unwrap_or(&t)),
            _ => docs[d] = Doc::Unspecified,
        },
        Op::Save(d, t) => match docs[d] {
            Doc::Open(o) => docs[d] = Doc::Open(t.unwrap_or(o)),
            _ => docs[d] = Doc::Unspecified,
        },
        Op::Close(d) => match docs[d] {
            Doc::Open(_) => docs[d] = Doc::Closed,
            Doc::Closed => {}
            Doc::Unspecified => {}
        },
        Op::Ask(_) | Op::Noise(_) => {}
    }
}

struct Sent {
    bytes: Vec<u8>,
    /// request id, and what its answer is judged against (None: any answer)
    asks: Vec<(u64, Option<Doc>)>,
}

impl Server {
    fn uri(&self, d: usize) -> String {
        format!("file:///s{}/{}", self.docs, NAMES[d])
    }

    fn session(&mut self, seq: &[Op], ndocs: usize) -> Sent {
        self.docs += 1;
        let mut docs = vec![Doc::Closed; ndocs];
        let mut s = Sent { bytes: vec![], asks: vec![] };
        for (v, op) in seq.iter().enumerate() {
            self.message(*op, v as i64 + 1, &mut s, &docs);
            step(&mut docs, *op);
        }
        for d in 0..ndocs {
            self.message(Op::Ask(d), 0, &mut s, &docs);
        }
        // so that the server does not keep everything
        for d in 0..ndocs {
            if docs[d] != Doc::Closed {
                self.message(Op::Close(d), 0, &mut s, &docs);
            }
        }
        s
    }

    fn message(&mut self, op: Op, version: i64, s: &mut Sent, docs: &[Doc]) {
        let notify = |method: &str, params: Value| frame(&json!({"jsonrpc": "2.0", "method": method, "params": params}));
        let b = match op {
            Op::Open(d, t) => notify(
                "textDocument/didOpen",
                json!({"textDocument": {"uri": self.uri(d), "languageId": "kdl", "version": version, "text": TEXTS[t]}}),
            ),
            Op::Change(d, ts) => notify(
                "textDocument/didChange",
                json!({"textDocument": {"uri": self.uri(d), "version": version},
                       "contentChanges": ts.iter().map(|t| json!({"text": TEXTS[*t]})).collect::<Vec<_>>()}),
            ),
            Op::Save(d, Some(t)) => notify("textDocument/didSave", json!({"textDocument": {"uri": self.uri(d)}, "text": TEXTS[t]})),
            Op::Save(d, None) => notify("textDocument/didSave", json!({"textDocument": {"uri": self.uri(d)}})),
            Op::Close(d) => notify("textDocument/didClose", json!({"textDocument": {"uri": self.uri(d)}})),
            Op::Ask(d) => {
                let (id, b) = self.request("textDocument/diagnostic", json!({"textDocument": {"uri": self.uri(d)}}));
                s.asks.push((id, Some(docs[d])));
                b
            }
            Op::Noise(0) => notify("$/cancelRequest", json!({"id": self.next_id.saturating_sub(1)})),
            Op::Noise(1) => notify("$/setTrace", json!({"value": "verbose"})),
            Op::Noise(2) => notify("workspace/didChangeWorkspaceFolders", json!({"event": {"added": [{"uri": "file:///w", "name": "w"}], "removed": []}})),
            Op::Noise(3) => notify("workspace/didChangeConfiguration", json!({"settings": {}})),
            Op::Noise(4) => {
                let (id, b) = self.request("textDocument/hover", json!({"textDocument": {"uri": self.uri(0)}, "position": {"line": 0, "character": 0}}));
                s.asks.push((id, None));
                b
            }
            Op::Noise(_) => {
                let (id, b) = self.request("kdl/unknown", json!({}));
                s.asks.push((id, None));
                b
            }
        };
        s.bytes.extend(b);
    }
}

fn judge_session(seq: &[Op], sent: &Sent, got: &HashMap<u64, Value>) -> Outcome {
    let cancels = seq.iter().any(|o| matches!(o, Op::Noise(0)));
    let mut out: Outcome = Ok("only-liveness");
    for (id, want) in &sent.asks {
        let v = &got[id];
        let o = match want {
            None | Some(Doc::Unspecified) => {
                if v.get("result").is_none() && v.get("error").is_none() {
                    return fail("no-answer", format!("{v}"));
                }
                continue;
            }
            // a request may end with "cancelled" after a cancel message
            Some(_) if cancels && v["error"]["code"] == -32800 => continue,
            Some(Doc::Closed) => judge(v, None)?,
            Some(Doc::Open(t)) => judge(v, Some(TEXTS[*t]))?,
        };
        if out == Ok("only-liveness") || out == Ok("no-text") {
            out = Ok(o);
        }
    }
    out
}

/// Runs sessions in one server, all messages written at once (`pipelined`) or
/// each after the answer to the one before it.
fn run_sessions(rep: &Rep, l: &mut Local, scope: &str, server: &mut Option<Server>, seqs: &[Vec<Op>], ndocs: usize) {
    let name = |s: &[Op]| s.iter().map(show).collect::<Vec<_>>().join(" ");
    l.states += seqs.len() as u64;
    l.transitions += seqs.iter().map(|s| s.len() as u64).sum::<u64>();
    if rep.one.as_ref().is_some_and(|o| o.0 != scope || !seqs.iter().any(|s| name(s) == o.1)) {
        return;
    }
    if gave_up() {
        return;
    }
    rep.busy(scope, &name(&seqs[0]));
    let all = (|| {
        if server.is_none() {
            *server = Some(Server::ready()?);
        }
        let sv = server.as_mut().unwrap();
        let sent: Vec<Sent> = seqs.iter().map(|s| sv.session(s, ndocs)).collect();
        let bytes = sent.iter().flat_map(|s| s.bytes.iter().copied()).collect();
        let ids: Vec<u64> = sent.iter().flat_map(|s| s.asks.iter().map(|a| a.0)).collect();
        let got = sv.exchange(bytes, &ids)?;
        Ok::<_, String>((sent, got))
    })();
    match all {
        Ok((sent, got)) => {
            for (q, s) in seqs.iter().zip(&sent) {
                rep.case(l, scope, &name(q), || judge_session(q, s, &got));
            }
        }
        Err(e) => {
            // which of them was it?
            *server = None;
            let before = rep.viol_count.load(Relaxed);
            for q in seqs {
                if gave_up() {
                    break;
                }
                rep.case(l, scope, &name(q), || {
                    let r = Server::ready().and_then(|mut sv| {
                        let s = sv.session(q, ndocs);
                        let ids: Vec<u64> = s.asks.iter().map(|a| a.0).collect();
                        let got = sv.exchange(s.bytes.clone(), &ids)?;
                        sv.finish()?;
                        Ok((s, got))
                    });
                    match r {
                        Ok((s, got)) => judge_session(q, &s, &got),
                        Err(e) => {
                            DIED.fetch_add(1, Relaxed);
                            fail("server-died", e)
                        }
                    }
                });
            }
            if rep.viol_count.load(Relaxed) == before {
                rep.case(l, scope, &format!("{} .. {}", name(&seqs[0]), name(&seqs[seqs.len() - 1])), || fail("server-died", format!("only in this order: {e}")));
            }
        }
    }
}

/// One message at a time, asking about every document after each.
fn run_lockstep(rep: &Rep, l: &mut Local, scope: &str, server: &mut Option<Server>, seq: &[Op], ndocs: usize) {
    if gave_up() {
        return;
    }
    l.states += 1;
    l.transitions += seq.len() as u64;
    let name = seq.iter().map(show).collect::<Vec<_>>().join(" ");
    rep.case(l, scope, &name, || {
        let r = (|| {
            if server.is_none() {
                *server = Some(Server::ready()?);
            }
            let sv = server.as_mut().unwrap();
            sv.docs += 1;
            let mut docs = vec![Doc::Closed; ndocs];
            let mut all = Sent { bytes: vec![], asks: vec![] };
            let mut got = HashMap::new();
            for (v, op) in seq.iter().enumerate() {
                let mut s = Sent { bytes: vec![], asks: vec![] };
                sv.message(*op, v as i64 + 1, &mut s, &docs);
                step(&mut docs, *op);
                for d in 0..ndocs {
                    sv.message(Op::Ask(d), 0, &mut s, &docs);
                }
                let ids: Vec<u64> = s.asks.iter().map(|a| a.0).collect();
                got.extend(sv.exchange(s.bytes, &ids)?);
                all.asks.extend(s.asks);
            }
            Ok::<_, String>((all, got))
        })();
        match r {
            Ok((s, got)) => judge_session(seq, &s, &got),
            Err(e) => {
                *server = None;
                DIED.fetch_add(1, Relaxed);
                fail("server-died", e)
            }
        }
    });
}

// ------------------------------------------------------------------- texts

fn run_texts(rep: &Rep, l: &mut Local, server: &mut Option<Server>, texts: &[(String, String)]) {
    if texts.is_empty() || gave_up() {
        return;
    }
    rep.busy(&texts[0].0, &texts[0].1);
    let send = |sv: &mut Server, texts: &[(String, String)]| {
        let mut bytes = vec![];
        let mut ids = vec![];
        let n = |method: &str, params: Value| frame(&json!({"jsonrpc": "2.0", "method": method, "params": params}));
        for (_, t) in texts {
            sv.docs += 1;
            let uri = sv.uri(0);
            bytes.extend(n("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "kdl", "version": 1, "text": t}})));
            let (id, b) = sv.request("textDocument/diagnostic", json!({"textDocument": {"uri": uri}}));
            bytes.extend(b);
            ids.push(id);
            bytes.extend(n("textDocument/didClose", json!({"textDocument": {"uri": uri}})));
        }
        let got = sv.exchange(bytes, &ids)?;
        Ok::<_, String>(ids.iter().map(|i| got[i].clone()).collect::<Vec<_>>())
    };
    let all = (|| {
        if server.is_none() {
            *server = Some(Server::ready()?);
        }
        send(server.as_mut().unwrap(), texts)
    })();
    match all {
        Ok(vs) => {
            for ((sc, t), v) in texts.iter().zip(&vs) {
                rep.case(l, sc, t, || judge(v, Some(t)));
            }
        }
        Err(e) => {
            *server = None;
            let before = rep.viol_count.load(Relaxed);
            for c in texts {
                if gave_up() {
                    break;
                }
                rep.case(l, &c.0, &c.1, || match Server::ready().and_then(|mut sv| send(&mut sv, std::slice::from_ref(c))) {
                    Ok(v) => judge(&v[0], Some(&c.1)),
                    Err(e) => {
                        DIED.fetch_add(1, Relaxed);
                        fail("server-died", e)
                    }
                });
            }
            if rep.viol_count.load(Relaxed) == before {
                rep.case(l, &texts[0].0, &texts[0].1, || fail("server-died", format!("only together with others: {e}")));
            }
        }
    }
}

/// Newlines of all kinds, characters of all lengths, and just enough syntax to
/// make errors of all kinds.
const POS: &[&str] = &[
    "a", " ", "\n", "\r\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "é", "€", "😀", "\"", "\"\"\"", "{", "}", "=", "\\", "/*", ")",
];

struct Work {
    server: Option<Server>,
    todo: Vec<(String, String)>,
}

pub fn p15(rep: &Rep) {
    let workers: Vec<std::sync::Mutex<Work>> =
        (0..rep.workers).map(|_| std::sync::Mutex::new(Work { server: None, todo: vec![] })).collect();
    let me = || workers[WORKER.with(|w| w.get())].lock().unwrap();

    // the sessions
    let depth = |docs: usize, texts: &'static [usize], full: bool, depth: usize| {
        let ops = ops(docs, texts, full);
        let scope = format!("sessions/{docs}-docs-{}-ops", ops.len());
        // the first two messages are fixed per job
        let n = ops.len() * ops.len();
        let what = format!("all sequences of <= {depth} of {}, written at once, and all documents asked about at the end", ops.iter().map(show).collect::<Vec<_>>().join(" "));
        rep.jobs(&scope, &what, n + 1, |i, l| {
            let mut w = me();
            let mut batch: Vec<Vec<Op>> = vec![];
            if i == n {
                for a in &ops {
                    batch.push(vec![*a]);
                }
                run_sessions(rep, l, &scope, &mut w.server, &batch, docs);
                return;
            }
            fn go(seq: &mut Vec<Op>, ops: &[Op], left: usize, out: &mut dyn FnMut(&[Op])) {
                out(seq);
                if left > 0 {
                    for o in ops {
                        seq.push(*o);
                        go(seq, ops, left - 1, out);
                        seq.pop();
                    }
                }
            }
            let mut seq = vec![ops[i / ops.len()], ops[i % ops.len()]];
            go(&mut seq, &ops, depth - 2, &mut |s| {
                batch.push(s.to_vec());
                if batch.len() == 64 {
                    run_sessions(rep, l, &scope, &mut w.server, &batch, docs);
                    batch.clear();
                }
            });
            if !batch.is_empty() {
                run_sessions(rep, l, &scope, &mut w.server, &batch, docs);
            }
        });
    };
    depth(1, &[0, 1, 2, 3, 4], true, rep.by(3, 4));
    depth(2, &[0, 1, 2], true, rep.by(3, 4));
    depth(2, &[0, 1], false, rep.by(4, 5));
    depth(3, &[0, 1], false, rep.by(3, 4));

    // one message at a time
    let ops3 = ops(2, &[0, 1, 2], true);
    let ld = rep.by(2, 3);
    let what = format!("all sequences of {ld} of {}, each written after the answers to the one before it", ops3.iter().map(show).collect::<Vec<_>>().join(" "));
    rep.jobs("sessions/lockstep", &what, ops3.len().pow(ld as u32), |mut i, l| {
        let mut seq = vec![];
        for _ in 0..ld {
            seq.push(ops3[i % ops3.len()]);
            i /= ops3.len();
        }
        let mut w = me();
        run_lockstep(rep, l, "sessions/lockstep", &mut w.server, &seq, 2);
    });

    // the beginning and the end of a session
    rep.jobs("lifecycle", "start, initialize, work, shutdown, exit", 1, |_, l| {
        l.states += 3;
        l.transitions += 3;
        rep.case(l, "lifecycle", "initialize", || {
            let mut s = Server::start();
            let v = match s.initialize() {
                Ok(v) => v,
                Err(e) => return fail("initialize", e),
            };
            let c = &v["result"]["capabilities"];
            let sync = &c["textDocumentSync"];
            // the editor sends what the server asks for: full texts
            if sync["change"] != 1 && *sync != 1 {
                return fail("sync-kind", format!("{sync}"));
            }
            if sync["openClose"] != true && *sync != 1 {
                return fail("sync-open-close", format!("{sync}"));
            }
            if !c["diagnosticProvider"].is_object() {
                return fail("diagnostic-provider", format!("{c}"));
            }
            match s.finish() {
                Ok(()) => Ok("ended"),
                Err(e) => fail("end", e),
            }
        });
        rep.case(l, "lifecycle", "work, then end", || {
            let r = Server::ready().and_then(|mut sv| {
                let s = sv.session(&[Op::Open(0, 1), Op::Ask(0), Op::Change(0, &[0])], 1);
                let ids: Vec<u64> = s.asks.iter().map(|a| a.0).collect();
                sv.exchange(s.bytes, &ids)?;
                sv.finish()
            });
            match r {
                Ok(()) => Ok("ended"),
                Err(e) => fail("end", e),
            }
        });
        rep.case(l, "lifecycle", "a request before initialize is refused", || {
            let mut s = Server::start();
            let (id, b) = s.request("textDocument/diagnostic", json!({"textDocument": {"uri": "file:///a.kdl"}}));
            match s.exchange(b, &[id]) {
                Ok(v) if v[&id].get("error").is_some() => {}
                Ok(v) => return fail("early", format!("{v:?}")),
                Err(e) => return fail("early", e),
            }
            match s.initialize() {
                Ok(v) if v.get("result").is_some() => Ok("refused"),
                x => fail("early", format!("{x:?}")),
            }
        });
    });

    // the texts
    let flush = |l: &mut Local| {
        let mut w = me();
        let todo = std::mem::take(&mut w.todo);
        run_texts(rep, l, &mut w.server, &todo);
    };
    let visit = |l: &mut Local, scope: &str, s: &str| {
        if rep.one.as_ref().is_some_and(|o| o.0 != scope || o.1 != s) {
            return;
        }
        let full = {
            let mut w = me();
            w.todo.push((scope.to_string(), s.to_string()));
            w.todo.len() >= if rep.one.is_some() { 1 } else { 128 }
        };
        if full {
            flush(l);
        }
    };
    let rest = || {
        let mut l = Local::default();
        for w in &workers {
            let mut w = w.lock().unwrap();
            let todo = std::mem::take(&mut w.todo);
            run_texts(rep, &mut l, &mut w.server, &todo);
        }
        rep.idle();
        rep.merge(l);
    };
    rep.tree("positions", "", POS, "", rep.by(4, 5), spaces::ALWAYS, &|l, s| visit(l, "positions", s));
    rest();
    // (not the texts that are valid in themselves: those are alike here)
    spaces::all(rep, rep.by(3, 2), &visit);
    rest();
    spaces::pumped(rep, &|l, sc, s| {
        if s.len() < 20_000 {
            visit(l, sc, s)
        }
    });
    rest();

    // long texts: many lines, long lines, many errors, with errors at the end
    let sizes: Vec<usize> = rep.by(
        vec![250, 255, 256, 1000, 1023, 1025, 4095, 4097, 16384, 65535, 65537],
        vec![250, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 9999, 10001, 16383, 16385, 32767, 32769, 65535, 65536, 65537, 131073, 200001],
    );
    let long: &[(&str, &str, &str, &str, usize)] = &[
        ("lines", "", "\n", "é )", usize::MAX),
        ("crlf", "", "\r\n", "é )", usize::MAX),
        ("nodes", "", "n 1;", "é )\n)", 17_000),
        ("bytes", "n \"", "x", "é\" )", usize::MAX),
        ("wide", "n \"", "😀", "é\" )", usize::MAX),
        ("errors", "", "a )\n", "", 1025),
        ("valid", "n \"", "x", "\"", usize::MAX),
    ];
    rep.jobs("long", &format!("u v^k w for {long:?}, k in {sizes:?}"), long.len() * sizes.len(), |i, l| {
        let (name, u, v, w, max) = long[i % long.len()];
        let k = sizes[i / long.len()];
        if k > max {
            return;
        }
        l.states += 1;
        l.transitions += 1;
        let text = format!("{u}{}{w}", v.repeat(k));
        let scope = "long";
        let me = format!("{name} {k}");
        if rep.one.as_ref().is_some_and(|o| o.0 != scope || o.1 != me) {
            return;
        }
        rep.case(l, scope, &me, || {
            let cut = |mut f: Fail| {
                f.detail = f.detail.chars().take(300).collect();
                f
            };
            let r = Server::ready().and_then(|mut sv| {
                let uri = sv.uri(0);
                let mut b = frame(&json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params":
                    {"textDocument": {"uri": uri, "languageId": "kdl", "version": 1, "text": text}}}));
                let (id, a) = sv.request("textDocument/diagnostic", json!({"textDocument": {"uri": uri}}));
                b.extend(a);
                Ok(sv.exchange(b, &[id])?.remove(&id).unwrap())
            });
            match r {
                Ok(v) => judge(&v, Some(&text)).map_err(cut),
                Err(e) => fail("server-died", e),
            }
        });
    });

    let mut ends: BTreeMap<String, u64> = BTreeMap::new();
    for w in workers {
        if let Some(s) = w.into_inner().unwrap().server {
            let r = match s.finish() {
                Ok(()) => "ended in order".to_string(),
                Err(e) => {
                    rep.violate("lifecycle", "shutdown after all sessions", Fail { sig: "end".into(), detail: e.clone() });
                    e
                }
            };
            *ends.entry(r).or_default() += 1;
        }
    }
    rep.note(format!("servers: {ends:?}"));
}
