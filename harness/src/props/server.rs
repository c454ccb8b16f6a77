//! The language server process.

use super::service::{any_method, any_position, any_range, history_text};
use crate::{engine::*, lsp::*};
use lsp_types::*;
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    io::{BufRead, BufReader, Write},
    process::{Child, ChildStdin, Command, Stdio},
    sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender},
    time::Duration,
};
use wat_service::LanguageService;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "sessions with the server process over its standard streams: documents opened, changed (also with several changes at once) and closed, requests of every kind with numeric and string ids, sent in one go or awaited, unknown methods and malformed parameters among them; every answer compared with an in-process service; non-trivial: at least 2 document updates and 4 requests",
        quick: 24_000,
        thorough: 300_000,
        run: c24,
        assumptions: &["requests only for documents that were opened", "each content change is a full text, as the server announces"],
    }]
}

enum Event {
    Message(Value),
    Broken(String),
    End,
}

struct Server {
    child: Child,
    stdin: Option<ChildStdin>,
    events: Receiver<Event>,
    /// dropped when the session is over
    _watchdog: Sender<()>,
    responses: BTreeMap<String, Value>,
    published: BTreeMap<String, Vec<Value>>,
    ended: bool,
}

fn binary() -> String {
    std::env::var("WATCHECK_SERVER").unwrap_or_else(|_| "/verif/target/server/debug/wat_server".into())
}

impl Server {
    fn start() -> Server {
        let mut child = Command::new(binary())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("harness bug: cannot start the server");
        let stdin = child.stdin.take();
        let stdout = child.stdout.take().unwrap();
        let (tx, events) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(stdout);
            loop {
                match frame(&mut r) {
                    Ok(Some(v)) => {
                        if tx.send(Event::Message(v)).is_err() {
                            return;
                        }
                    }
                    Ok(None) => {
                        let _ = tx.send(Event::End);
                        return;
                    }
                    Err(e) => {
                        let _ = tx.send(Event::Broken(e));
                        return;
                    }
                }
            }
        });
        let (watchdog, gone) = channel::<()>();
        let pid = child.id();
        std::thread::spawn(move || {
            if let Err(RecvTimeoutError::Timeout) = gone.recv_timeout(Duration::from_secs(60)) {
                let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
            }
        });
        Server {
            child,
            stdin,
            events,
            _watchdog: watchdog,
            responses: BTreeMap::new(),
            published: BTreeMap::new(),
            ended: false,
        }
    }
    fn send(&mut self, mut v: Value) {
        v["jsonrpc"] = "2.0".into();
        let body = v.to_string();
        // a server that is gone is noticed when its answers are missing
        let _ = write!(self.stdin.as_mut().unwrap(), "Content-Length: {}\r\n\r\n{body}", body.len());
        let _ = self.stdin.as_mut().unwrap().flush();
    }
    /// Handle the next message of the server; false at the end of the stream.
    fn step(&mut self) -> Result<bool, String> {
        match self.events.recv() {
            Ok(Event::Message(v)) => {
                if let Some(m) = v["method"].as_str() {
                    if v.get("id").is_some() || m != "textDocument/publishDiagnostics" {
                        return Err(format!("unexpected message of the server: {v}"));
                    }
                    let uri = v["params"]["uri"].as_str().unwrap_or_default().to_string();
                    self.published
                        .entry(uri)
                        .or_default()
                        .push(v["params"].clone());
                } else {
                    let id = v["id"].to_string();
                    if v.get("result").is_some() == v.get("error").is_some() {
                        return Err(format!("response with neither or both of result and error: {v}"));
                    }
                    if self.responses.insert(id.clone(), v).is_some() {
                        return Err(format!("request {id} is answered twice"));
                    }
                }
                Ok(true)
            }
            Ok(Event::Broken(e)) => Err(format!("output of the server is not a message: {e}")),
            Ok(Event::End) | Err(_) => {
                self.ended = true;
                Ok(false)
            }
        }
    }
    fn wait_for(&mut self, id: &Value) -> Outcome {
        let id = id.to_string();
        while !self.responses.contains_key(&id) {
            if !self.step()? {
                return Err(format!("the server ended (or hung for a minute) before it answered request {id}"));
            }
        }
        Ok(())
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn frame(r: &mut impl BufRead) -> Result<Option<Value>, String> {
    let mut len = None;
    let mut first = true;
    loop {
        let mut line = String::new();
        let n = r.read_line(&mut line).map_err(|e| e.to_string())?;
        if n == 0 {
            return if first { Ok(None) } else { Err("end in a header".into()) };
        }
        first = false;
        let line = line.strip_suffix("\r\n").ok_or_else(|| format!("header {line:?}"))?;
        if line.is_empty() {
            break;
        }
        if let Some(v) = line.strip_prefix("Content-Length: ") {
            len = Some(v.parse::<usize>().map_err(|e| e.to_string())?);
        }
    }
    let mut body = vec![0; len.ok_or("no content length")?];
    r.read_exact(&mut body).map_err(|e| e.to_string())?;
    serde_json::from_slice(&body).map(Some).map_err(|e| e.to_string())
}

/// The in-process name of a method and the name in the protocol.
fn method_name(m: &str) -> String {
    match m {
        "incomingCalls" | "outgoingCalls" => format!("callHierarchy/{m}"),
        _ => format!("textDocument/{m}"),
    }
}

enum Expect {
    Result(&'static str, Value),
    Error(Option<i64>, &'static str),
    Refused(String),
}

/// Everything the server handles is announced.
fn announced(result: &Value) -> Outcome {
    let c = &result["capabilities"];
    for p in [
        "callHierarchyProvider",
        "codeActionProvider",
        "completionProvider",
        "diagnosticProvider",
        "foldingRangeProvider",
        "documentFormattingProvider",
        "documentRangeFormattingProvider",
        "definitionProvider",
        "typeDefinitionProvider",
        "declarationProvider",
        "hoverProvider",
        "inlayHintProvider",
        "referencesProvider",
        "renameProvider",
        "selectionRangeProvider",
        "semanticTokensProvider",
        "documentSymbolProvider",
    ] {
        if c[p].is_null() || c[p] == json!(false) {
            return Err(format!("{p} is not announced: {c}"));
        }
    }
    let sync = &c["textDocumentSync"];
    // each change is taken for the full text
    if sync["openClose"] != json!(true) || sync["change"] != json!(1) {
        return Err(format!("synchronisation is announced as {sync}"));
    }
    if c["renameProvider"]["prepareProvider"] != json!(true) {
        return Err("prepareRename is not announced".into());
    }
    let t = &c["semanticTokensProvider"];
    if t["range"] != json!(true) || t["full"].is_null() || t["full"] == json!(false) {
        return Err(format!("semantic tokens are announced as {t}"));
    }
    let chars = c["completionProvider"]["triggerCharacters"].as_array().cloned().unwrap_or_default();
    for w in ('a'..='z').chain('0'..='9').chain(['$', '(']) {
        if !chars.contains(&json!(w.to_string())) {
            return Err(format!("{w:?} does not trigger completion"));
        }
    }
    Ok(())
}

fn c24(g: &mut G, case: &mut Case) -> Outcome {
    let mut s = LanguageService::default();
    let types: Vec<SemanticTokenType> = TOKEN_TYPES.iter().filter(|_| g.chance(5, 6)).cloned().collect();
    let pull = g.chance(1, 3);
    let mut caps = json!({"textDocument": {"semanticTokens": {
        "requests": {}, "tokenTypes": types, "tokenModifiers": [], "formats": ["relative"]
    }}});
    if pull {
        caps["textDocument"]["diagnostic"] = json!({});
    }
    let init_params = json!({"processId": null, "rootUri": null, "capabilities": caps});
    let init_result = serde_json::to_value(s.initialize(serde_json::from_value(init_params.clone()).unwrap())).unwrap();

    let mut server = Server::start();
    let mut expected: Vec<(Value, String, Expect)> = vec![];
    let mut published: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    let mut next = 0u32;
    let strings = g.chance(1, 4);
    let mut new_id = || -> Value {
        next += 1;
        if strings && next % 2 == 0 {
            json!(format!("r{next}"))
        } else {
            json!(next)
        }
    };
    let id = new_id();
    server.send(json!({"id": id, "method": "initialize", "params": init_params}));
    server.wait_for(&id)?;
    if server.responses[&id.to_string()]["result"] != init_result {
        return Err(format!(
            "initialize gives {} instead of {init_result}",
            server.responses[&id.to_string()]
        ));
    }
    announced(&init_result)?;
    let kinds = init_result["capabilities"]["codeActionProvider"]["codeActionKinds"].clone();
    server.send(json!({"method": "initialized", "params": {}}));

    let docs = g.range(1, 3);
    let steps = g.range(3, 10);
    let wait = g.chance(1, 3);
    let mut texts: Vec<Vec<String>> = vec![vec![]; docs];
    let mut open = vec![false; docs];
    let (mut updates, mut requests) = (0, 0);
    case.note(&(pull, strings, wait));
    case.rendering.push_str(&format!("pull diagnostics: {pull}\n"));
    for step in 0..steps {
        let d = if step < docs { step } else { g.below(docs) };
        let u = uri(d);
        if texts[d].is_empty() || g.chance(2, 5) {
            if open[d] && g.chance(1, 6) {
                case.label("close");
                case.rendering.push_str(&format!("close doc{d}\n"));
                server.send(json!({"method": "textDocument/didClose", "params": {"textDocument": {"uri": u.as_str()}}}));
                if !pull {
                    published
                        .entry(u.as_str().into())
                        .or_default()
                        .push(json!({"uri": u.as_str(), "diagnostics": []}));
                }
                open[d] = false;
            } else {
                let t = history_text(g, &texts[d]);
                case.note(&t);
                if open[d] {
                    let mut changes: Vec<Value> = vec![];
                    if g.chance(1, 4) {
                        case.label("several changes at once");
                        let other = history_text(g, &texts[d]);
                        changes.push(json!({"text": other}));
                    }
                    changes.push(json!({"text": t}));
                    case.rendering.push_str(&format!("change doc{d}: {changes:?}\n"));
                    server.send(json!({"method": "textDocument/didChange", "params": {
                        "textDocument": {"uri": u.as_str(), "version": step}, "contentChanges": changes
                    }}));
                } else {
                    case.rendering.push_str(&format!("open doc{d}: {t:?}\n"));
                    server.send(json!({"method": "textDocument/didOpen", "params": {
                        "textDocument": {"uri": u.as_str(), "languageId": "wat", "version": step, "text": t}
                    }}));
                    open[d] = true;
                }
                guard(|| s.commit(u.clone(), t.clone()))?;
                if !pull {
                    let v = guard(|| request(&s, "publishDiagnostics", json!({"textDocument": {"uri": u.as_str()}})))?;
                    published.entry(u.as_str().into()).or_default().push(v);
                }
                texts[d].push(t);
                updates += 1;
            }
            if g.chance(1, 2) {
                continue;
            }
        }
        for _ in 0..g.range(1, 4) {
            let d = if g.chance(1, 3) { g.below(docs) } else { d };
            let (Some(t), true) = (texts[d].last(), open[d]) else {
                continue;
            };
            let lines = Lines::new(t);
            let u = uri(d);
            let id = new_id();
            requests += 1;
            match g.below(16) {
                0 => {
                    let m = *g.pick(&["textDocument/implementation", "workspace/symbol", "$/foo", "textDocument/definitions", "completion"]);
                    case.label("unknown method");
                    case.rendering.push_str(&format!("unknown {m}\n"));
                    server.send(json!({"id": id, "method": m, "params": {"textDocument": {"uri": u.as_str()}}}));
                    expected.push((id.clone(), m.into(), Expect::Error(Some(-32601), "unknown method")));
                }
                1 => {
                    let m = any_method(g);
                    let m = if m == "publishDiagnostics" { "hover" } else { m };
                    let p = g.pick(&[json!({}), json!({"textDocument": 3}), json!([]), json!("x"), json!({"position": {"line": -1}})]).clone();
                    case.label("malformed parameters");
                    case.rendering.push_str(&format!("{m} with parameters {p}\n"));
                    server.send(json!({"id": id, "method": method_name(m), "params": p}));
                    expected.push((id.clone(), m.into(), Expect::Error(None, "malformed parameters")));
                }
                _ => {
                    let mut m = any_method(g);
                    if m == "publishDiagnostics" {
                        m = "documentSymbol";
                    }
                    let mut p = params(&u, any_position(g, &lines), any_range(g, &lines), g.below(12) as u32);
                    if m == "prepareCallHierarchy" && g.chance(2, 3) {
                        // go on with the calls of some function
                        let v = guard(|| {
                            (0..lines.text.len())
                                .filter(|o| lines.text.is_char_boundary(*o) && lines.text[..*o].ends_with("func $"))
                                .find_map(|o| {
                                    let q = params(&u, lines.pos(o), lines.range(o, o), 0);
                                    request(&s, m, q).get(0).cloned()
                                })
                        })?;
                        if let Some(item) = v {
                            m = *g.pick(&["incomingCalls", "outgoingCalls"]);
                            p = json!({"item": item});
                        }
                    }
                    case.label(m);
                    case.rendering.push_str(&format!("{m} doc{d} {p}\n"));
                    server.send(json!({"id": id, "method": method_name(m), "params": p}));
                    let want = canon(m, guard(|| request(&s, m, p.clone()))?);
                    if m == "codeAction" {
                        for a in want.as_array().into_iter().flatten() {
                            case.label("an action is offered");
                            if !kinds.as_array().is_some_and(|k| k.contains(&a["kind"])) {
                                return Err(format!("actions of the kind {} are not announced: {kinds}", a["kind"]));
                            }
                        }
                    }
                    let e = match want.get("error").and_then(|e| e.as_str()) {
                        Some(message) => Expect::Refused(message.into()),
                        None => Expect::Result(m, want),
                    };
                    expected.push((id.clone(), m.into(), e));
                }
            }
            if wait {
                server.wait_for(&id)?;
            } else if g.chance(1, 5) {
                case.label("message without an answer");
                // messages that need no answer
                let v = [
                    json!({"method": "$/cancelRequest", "params": {"id": 99999}}),
                    json!({"method": "textDocument/didSave", "params": {"textDocument": {"uri": u.as_str()}}}),
                    json!({"method": "$/setTrace", "params": {"value": "off"}}),
                    json!({"method": "textDocument/didChange", "params": {"oops": 1}}),
                    json!({"method": "textDocument/didOpen", "params": {"textDocument": {"uri": u.as_str()}}}),
                    json!({"method": "textDocument/didClose", "params": {}}),
                    json!({"method": "workspace/didChangeWatchedFiles", "params": {"changes": []}}),
                    json!({"id": 7_777_777, "result": null}),
                ];
                server.send(g.pick(&v).clone());
            }
        }
    }
    case.nontrivial = updates >= 2 && requests >= 4;

    let id = new_id();
    server.send(json!({"id": id, "method": "shutdown"}));
    server.wait_for(&id)?;
    server.send(json!({"method": "exit"}));
    server.stdin = None;
    while server.step()? {}
    let status = server.child.wait().map_err(|e| e.to_string())?;
    if !status.success() {
        return Err(format!("the server ends with {status} after shutdown and exit"));
    }

    let mut answered = server.responses.len();
    for (id, what, e) in &expected {
        let Some(r) = server.responses.get(&id.to_string()) else {
            return Err(format!("request {id} ({what}) is not answered"));
        };
        match e {
            Expect::Result(m, want) => {
                if r.get("error").is_some() || canon(m, r["result"].clone()) != *want {
                    return Err(format!("answer of request {id} ({what}) is {r} instead of {want}"));
                }
            }
            Expect::Refused(message) => {
                if r["error"]["message"].as_str() != Some(message) {
                    return Err(format!("answer of request {id} ({what}) is {r} instead of the error {message:?}"));
                }
            }
            Expect::Error(code, why) => {
                let got = r["error"]["code"].as_i64();
                if got.is_none() || code.is_some() && *code != got {
                    return Err(format!("answer of request {id} ({what}, {why}) is {r}"));
                }
            }
        }
        answered -= 1;
    }
    // initialize and shutdown
    if answered != 2 {
        return Err(format!("{} answers to requests that were not sent", answered as i64 - 2));
    }
    for (u, list) in &mut server.published {
        if pull {
            // the client asks for diagnostics itself
            if list.iter().any(|v| v["diagnostics"].as_array().map_or(true, |d| !d.is_empty())) {
                return Err(format!("diagnostics published for {u} although the client pulls them"));
            }
            continue;
        }
        let want = published.remove(u).unwrap_or_default();
        let got: Vec<Value> = list.iter().map(|v| canon("publishDiagnostics", v.clone())).collect();
        let want: Vec<Value> = want.into_iter().map(|v| canon("publishDiagnostics", v)).collect();
        if got != want {
            return Err(format!("diagnostics published for {u}: {got:?} instead of {want:?}"));
        }
    }
    if let Some((u, want)) = published.into_iter().next() {
        return Err(format!("no diagnostics published for {u} instead of {want:?}"));
    }
    Ok(())
}
