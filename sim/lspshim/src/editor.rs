//! The simulated editor: it keeps its own copy of every document, decides every message, reply,
//! delay and fault, and judges what the server sends.

use std::{collections::BTreeMap, rc::Rc};

use schemagen::Cfg;
use serde_json::{Value, json};
use simcore::Source;

use crate::{
    oracle::{self, Hov, Legend, Verdict},
    text::{self, Enc, Pos},
    world::{Event, MS, Net, SEC, frame},
};

pub const PROPS: &[&str] = &["L01", "L02", "L03", "L04", "L05", "L06", "L07", "L08"];

pub fn rule(property: &str) -> String {
    let what = match property {
        "L01" => "after a random history of open/change/close/delete, answers equal those for a fresh document with the same text and those computed from the text by an independent reader",
        "L02" => "every request, whatever its kind, gets exactly one response with its id; unservable ones get an error",
        "L03" => "the last published diagnostics of every open document are those of its latest text",
        "L04" => "messages sent while the server waits for the editor's reply all take effect, once, in order",
        "L05" => "answers arrive within the documented two-second waits whatever the editor does; shutdown, exit or a closed connection end the process",
        "L06" => "every range sent designates the named item in the editor's text, every position sent is applied there, in the announced encoding",
        "L07" => "no text, position or malformed message stops the server; healthy documents are still served correctly",
        _ => "hover shows ids and sizes exactly as the settings in force say",
    };
    format!("one simulated editor session per run; {what}")
}

/// Whether a class of failure belongs to the property.
fn judged(prop: &str, class: &str) -> bool {
    let list: &[&str] = match class {
        "response-missing" | "response-duplicate" | "response-unknown" => &["L02", "L04", "L05", "L07"],
        "response-kind" => &["L02", "L04", "L07"],
        "response-order" => &["L04"],
        "late" | "after-shutdown" => &["L05"],
        "encoding" => &["L06"],
        "symbols" | "tokens" | "hover-item" => &["L01", "L04", "L06", "L07"],
        "diagnostics" => &["L01", "L03", "L04", "L06", "L07"],
        "diagnostic-range" => &["L03", "L06"],
        "fresh" => &["L01", "L06"],
        "fresh-diagnostics" => &["L01", "L03", "L06"],
        "settings" => &["L08"],
        "settings-lost" => &["L04", "L08"],
        "deleted" => &["L04"],
        _ => return true,
    };
    list.contains(&prop)
}

enum Expect {
    Any,
    Error,
    Initialize,
    Shutdown,
    Barrier,
    /// Recorded for later comparison, and judged by the text.
    Hover { text: Option<Rc<str>>, at: Pos, trig: u32, want: Hov, keep: bool },
    Symbols { text: Option<Rc<str>>, keep: bool },
    Tokens { text: Option<Rc<str>>, keep: bool },
    /// The document was deleted: there is nothing to tell about it.
    Deleted,
}

struct Req {
    expect: Expect,
    order: u64,
    due: u64,
    arrival: u64,
    answered: bool,
    cancelled: bool,
}

#[derive(Clone)]
struct Doc {
    uri: String,
    text: Rc<str>,
    version: i64,
    open: bool,
    /// The server's text may differ from ours (hostile input); resynchronised later.
    fuzzy: bool,
    /// The editor told that the closed document's file was deleted.
    deleted: bool,
    history: Vec<Rc<str>>,
    published: Option<Value>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Phase {
    Boot,
    WaitInit,
    Run,
    Quiesce,
    Settings,
    Verify,
    Shutdown,
    End,
}

struct Plan {
    steps: u64,
    weights: [u32; 12],
    /// prompt, slow, late, never, error, null, invalid, duplicate, stale-first
    reply: [u32; 9],
    unicode: bool,
    crlf: u8,
    max_defs: u64,
    /// 0 no stalls, 1 short ones, 2 long ones
    stalls: u64,
    burst: u64,
    /// How the session ends early, if at all.
    vanish: Option<(u64, u64)>,
}

pub struct Editor {
    prop: String,
    plan: Plan,
    phase: Phase,
    step: u64,
    enc: Enc,
    offered: Vec<String>,
    legend: Legend,
    docs: Vec<Doc>,
    uris: u64,
    reqs: BTreeMap<String, Req>,
    next_id: u64,
    sent_order: u64,
    last_answered: u64,
    busy: u64,
    stall_log: Vec<(u64, u64)>,
    long_stall: bool,
    trig: u32,
    cfg_seen: u32,
    client_cfg: Hov,
    in_force: Vec<Hov>,
    replies: Vec<(String, Vec<u8>, Option<CfgReply>)>,
    past_ids: Vec<Value>,
    answers: BTreeMap<String, Value>,
    pairs: Vec<(usize, usize, Vec<(String, String, String)>)>,
    settings_left: u64,
    shutdown_answered: bool,
    /// The editor may have been cut off or has broken the protocol: the end need not be clean.
    leaving: bool,
    clean: bool,
    spoiled: bool,
    burst_left: u64,
    /// Files of the workspace folder that was announced: names and content.
    workspace: Vec<(String, String)>,
}

/// A configuration reply: the wait it belongs to began at `sent`.
#[derive(Clone, Copy)]
struct CfgReply {
    sent: u64,
    new: Option<Hov>,
}

const UNSUPPORTED: &[&str] = &[
    "textDocument/completion",
    "textDocument/definition",
    "workspace/symbol",
    "textDocument/semanticTokens/range",
    "textDocument/semanticTokens/full/delta",
    "initialize",
    "$/custom",
    "mabo/unknown",
    "textDocument/hover2",
    "Shutdown",
];

/// A text of the same length that differs in one letter or digit.
fn altered(src: &mut Source, t: &str) -> String {
    let places: Vec<usize> = t.bytes().enumerate().filter(|(_, b)| b.is_ascii_alphanumeric()).map(|(i, _)| i).collect();
    let mut b = t.as_bytes().to_vec();
    if !places.is_empty() {
        let i = places[src.idx(places.len())];
        b[i] = match b[i] {
            b'0'..=b'8' | b'a'..=b'y' | b'A'..=b'Y' => b[i] + 1,
            b'9' => b'8',
            x => x - 1,
        };
    }
    String::from_utf8(b).expect("one ASCII byte for another")
}

impl Editor {
    pub fn new(prop: &str, net: &mut Net) -> Self {
        let s = &mut net.src;
        let weights = match prop {
            // open change ask odd-ask note config close reopen delete stall hostile wait
            "L01" => [4, 20, 6, 0, 1, 1, 2, 2, 1, 1, 0, 1],
            "L02" => [3, 6, 12, 12, 6, 3, 1, 1, 1, 2, 0, 1],
            "L03" => [5, 20, 2, 0, 1, 1, 2, 3, 1, 1, 0, 2],
            "L04" => [4, 12, 8, 3, 2, 8, 1, 1, 1, 2, 0, 2],
            "L05" => [3, 8, 8, 2, 1, 6, 1, 1, 0, 6, 0, 2],
            "L06" => [4, 12, 14, 0, 0, 1, 1, 1, 0, 0, 0, 0],
            "L07" => [3, 8, 6, 5, 6, 2, 1, 1, 1, 1, 12, 1],
            _ => [3, 4, 14, 0, 1, 10, 1, 1, 0, 1, 0, 3],
        };
        let faulty = matches!(prop, "L02" | "L04" | "L05" | "L08") || s.chance(1, 4);
        let reply = if faulty {
            let mut w = [3, 3, 2, 2, 1, 1, 1, 1, 1];
            for x in &mut w[1..] {
                if s.chance(1, 3) {
                    *x *= 4;
                }
            }
            w
        } else {
            [1, 0, 0, 0, 0, 0, 0, 0, 0]
        };
        let most = if s.chance(1, 6) { 60 } else { 18 };
        let steps = s.range(1, most);
        let plan = Plan {
            steps,
            weights,
            reply,
            unicode: prop == "L06" || s.chance(1, 2),
            crlf: s.weighted(&[4, 2, 1]) as u8,
            max_defs: s.range(1, 5),
            stalls: match prop {
                "L05" | "L04" | "L02" => s.below(3),
                "L06" => 0,
                _ => s.below(2),
            },
            burst: s.below(4),
            vanish: (prop == "L05" && s.chance(2, 3)).then(|| (s.below(20), s.below(7))),
        };
        net.latency = *s.pick(&[0, MS, 5 * MS, 50 * MS]);
        net.capacity = if plan.stalls > 0 { *s.pick(&[64, 4, 1]) } else { 64 };
        net.slow_server = s.chance(1, 3);
        if !s.chance(1, 8) {
            log::set_max_level(log::LevelFilter::Off);
        }
        net.schedule(0, Event::Act);
        Self {
            prop: prop.to_owned(),
            plan,
            phase: Phase::Boot,
            step: 0,
            enc: Enc::Utf16,
            offered: Vec::new(),
            legend: Legend { types: Vec::new(), modifiers: Vec::new() },
            docs: Vec::new(),
            uris: 0,
            reqs: BTreeMap::new(),
            next_id: 0,
            sent_order: 0,
            last_answered: 0,
            busy: 0,
            stall_log: Vec::new(),
            long_stall: false,
            trig: 0,
            cfg_seen: 0,
            client_cfg: Hov { next: true, size: true },
            in_force: vec![Hov { next: true, size: true }],
            replies: Vec::new(),
            past_ids: Vec::new(),
            answers: BTreeMap::new(),
            pairs: Vec::new(),
            settings_left: 0,
            shutdown_answered: false,
            leaving: false,
            clean: false,
            spoiled: false,
            burst_left: 0,
            workspace: Vec::new(),
        }
    }

    pub fn expects_exit_zero(&self) -> bool {
        self.clean && !self.spoiled
    }

    fn verdict(&self, class: &str, detail: impl Into<String>) -> Verdict {
        if judged(&self.prop, class) { Err((class.to_owned(), detail.into())) } else { Ok(()) }
    }

    fn filter(&self, v: Verdict) -> Verdict {
        match v {
            Err((class, detail)) => self.verdict(&class, detail),
            Ok(()) => Ok(()),
        }
    }

    // ---- sending ----

    fn cost(&self, us: u64, publishes: bool) -> u64 {
        us + 40 * MS + if publishes && self.plan.stalls > 0 { 2 * SEC } else { 0 }
    }

    fn put(&mut self, net: &mut Net, name: &str, v: &Value, cost: u64) -> u64 {
        let at = net.post(name, frame(v));
        self.busy = self.busy.max(at) + cost;
        at
    }

    fn notify(&mut self, net: &mut Net, method: &str, params: Value) {
        let publishes = method.starts_with("textDocument/did");
        let mut cost = self.cost(0, publishes);
        if method == "workspace/didChangeConfiguration" {
            cost += 2 * SEC + if self.plan.stalls > 0 { 2 * SEC } else { 0 };
        }
        if method == "initialized" {
            cost += 4 * SEC + if self.plan.stalls > 0 { 4 * SEC } else { 0 };
        }
        self.put(net, method, &json!({"jsonrpc": "2.0", "method": method, "params": params}), cost);
    }

    fn request(&mut self, net: &mut Net, method: &str, params: Value, expect: Expect) -> String {
        self.next_id += 1;
        let id = match net.src.weighted(&[5, 2, 1]) {
            0 => json!(self.next_id),
            1 => json!(format!("r{}", self.next_id)),
            _ => json!(i32::MAX as u64 - self.next_id),
        };
        let key = id.to_string();
        let mut msg = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            msg["params"] = params;
        }
        let cost = self.cost(0, false);
        let arrival = self.put(net, &format!("request {key} {method}"), &msg, cost);
        self.sent_order += 1;
        // answered no later than this if the editor does not stall
        let due = self.busy + 500 * MS + 4 * net.latency;
        self.reqs.insert(key.clone(), Req { expect, order: self.sent_order, due, arrival, answered: false, cancelled: false });
        net.schedule(due, Event::Due(key.clone()));
        key
    }

    fn new_uri(&mut self, net: &mut Net) -> String {
        self.uris += 1;
        let n = self.uris;
        match net.src.below(6) {
            0 | 1 => format!("file:///project/doc{n}.mabo"),
            // prefixes of one another
            2 => format!("file:///project/{}.mabo", "a".repeat(n as usize)),
            3 => format!("untitled:Untitled-{n}"),
            4 => format!("file:///with%20space/d{n}/%C3%BC.mabo"),
            _ => format!("file:///project/DOC{n}.mabo?x={n}#f"),
        }
    }

    fn doc_text(&self, src: &mut Source) -> String {
        let cfg = Cfg {
            unicode: self.plan.unicode,
            crlf: self.plan.crlf,
            max_defs: self.plan.max_defs,
            ..Cfg::default()
        };
        let mut t = match src.below(20) {
            19 => String::new(),
            18 => "\n\n".to_owned(),
            _ => schemagen::schema(src, &cfg),
        };
        match src.below(8) {
            7 => self.break_text(src, &mut t),
            6 => t.push_str("\nstruct Dup(u8 @1, u16 @1)\n"),
            5 if src.chance(1, 2) => t.push_str("\nenum Dup { A @1, A @2, }\n"),
            _ => {}
        }
        t
    }

    fn break_text(&self, src: &mut Source, t: &mut String) {
        match src.below(4) {
            0 => t.push_str("\nstruct "),
            1 => t.push_str("\n  }"),
            2 => t.insert_str(0, "?? "),
            _ => {
                // the first half only
                let mut cut = t.len() / 2;
                while !t.is_char_boundary(cut) {
                    cut -= 1;
                }
                if t[..cut].ends_with('\r') {
                    cut -= 1;
                }
                t.truncate(cut);
            }
        }
    }

    fn open_docs(&self) -> Vec<usize> {
        (0..self.docs.len()).filter(|i| self.docs[*i].open).collect()
    }

    fn open(&mut self, net: &mut Net, uri: String, t: String) -> usize {
        let text: Rc<str> = t.into();
        self.notify(
            net,
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "mabo", "version": 1, "text": &*text}}),
        );
        let doc = Doc {
            uri,
            text: text.clone(),
            version: 1,
            open: true,
            fuzzy: false,
            deleted: false,
            history: vec![text],
            published: None,
        };
        if let Some(i) = self.docs.iter().position(|d| d.uri == doc.uri) {
            let published = self.docs[i].published.take();
            self.docs[i] = Doc { published, ..doc };
            i
        } else {
            self.docs.push(doc);
            self.docs.len() - 1
        }
    }

    /// Opens a file of the workspace, mostly with the content it has on disk.
    fn open_file(&mut self, net: &mut Net) {
        let (uri, mut t) = self.workspace[net.src.idx(self.workspace.len())].clone();
        if self.docs.iter().any(|d| d.open && d.uri == uri) {
            return;
        }
        if net.src.chance(1, 5) {
            t = altered(&mut net.src, &t);
        }
        net.ctx.probe("workspace-file-opened");
        self.open(net, uri, t);
    }

    fn delete(&mut self, net: &mut Net, files: &[String]) {
        for d in &mut self.docs {
            d.deleted |= !d.open && files.contains(&d.uri);
        }
        let files: Vec<Value> = files.iter().map(|u| json!({"uri": u})).collect();
        self.notify(net, "workspace/didDeleteFiles", json!({"files": files}));
    }

    /// Cancels a request that may still be waiting; it must be answered all the same.
    fn cancel(&mut self, net: &mut Net) {
        let open: Vec<String> = self
            .reqs
            .iter()
            .filter(|(_, r)| !r.answered && !matches!(r.expect, Expect::Initialize | Expect::Shutdown | Expect::Barrier))
            .map(|(k, _)| k.clone())
            .collect();
        if open.is_empty() {
            return;
        }
        let key = open[net.src.idx(open.len())].clone();
        if let Some(r) = self.reqs.get_mut(&key) {
            r.cancelled = true;
        }
        net.ctx.fault("cancelled-request");
        let id: Value = serde_json::from_str(&key).unwrap_or(Value::Null);
        self.notify(net, "$/cancelRequest", json!({"id": id}));
    }

    // ---- edits ----

    /// A boundary between characters, never inside a CR LF.
    fn spot(src: &mut Source, t: &str) -> usize {
        let mut at = src.idx(t.len() + 1);
        loop {
            let inside = at > 0 && at < t.len() && t.as_bytes()[at - 1] == b'\r' && t.as_bytes()[at] == b'\n';
            if t.is_char_boundary(at) && !inside {
                return at;
            }
            at -= 1;
        }
    }

    fn snippet(&self, src: &mut Source) -> String {
        let nl = if self.plan.crlf == 1 || self.plan.crlf == 2 && src.chance(1, 2) { "\r\n" } else { "\n" };
        match src.below(9) {
            0 => String::new(),
            1 => nl.to_owned(),
            2 => schemagen::words(src, self.plan.unicode, 3),
            3 => format!("{nl}struct New{}(u8 @1){nl}", src.below(1000)),
            4 => format!("/// {}{nl}", schemagen::words(src, self.plan.unicode, 3)),
            5 => "x".to_owned(),
            6 => format!("{nl}enum En{} {{ A @{}, B }}{nl}", src.below(1000), src.below(300) + 1),
            7 => (*src.pick(&["é", "😀", "中文", "𝕏a", "a\u{301}"])).to_owned(),
            _ => (*src.pick(&["}", "{", "@1", ",", "u8", "/", "\"", " ", ";"])).to_owned(),
        }
    }

    /// One edit of `t`: range and replacement.
    fn edit(&self, src: &mut Source, t: &str) -> (usize, usize, String) {
        match src.weighted(&[5, 3, 3, 2]) {
            0 => {
                let a = Self::spot(src, t);
                (a, a, self.snippet(src))
            }
            1 => {
                let (mut a, mut b) = (Self::spot(src, t), Self::spot(src, t));
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                if b - a > 40 && src.chance(3, 4) {
                    b = a + 40;
                    while !t.is_char_boundary(b) || t[..b].ends_with('\r') {
                        b -= 1;
                    }
                    b = b.max(a);
                }
                (a, b, self.snippet(src))
            }
            2 => {
                // at the start or end of a line
                let ls = text::lines(t);
                let l = ls[src.idx(ls.len())];
                let at = if src.chance(1, 2) { l.0 } else { l.1 };
                (at, at, self.snippet(src))
            }
            _ => {
                // rename something
                let items = oracle::items(t);
                if items.is_empty() {
                    return (0, 0, String::new());
                }
                let i = &items[src.idx(items.len())];
                let c = (*src.pick(&["z", "9", "qq"])).to_owned();
                if src.chance(1, 2) {
                    (i.end, i.end, c)
                } else {
                    (i.start, i.end, format!("{}{c}", i.name))
                }
            }
        }
    }

    fn range_of(&self, src: &mut Source, t: &str, a: usize, b: usize) -> Value {
        let p = |at: usize, src: &mut Source| {
            let (line, mut col) = text::position(t, self.enc, at);
            let end = text::lines(t)[line as usize].1;
            if at == end && src.chance(1, 4) {
                // beyond the end of the line means its end
                col += *src.pick(&[1u32, 2, 7, 1000, 0x7fff_0000]);
            }
            json!({"line": line, "character": col})
        };
        let start = p(a, src);
        let end = p(b, src);
        // an overlong start with an exact end must stay in order
        if a == b && start["character"].as_u64() > end["character"].as_u64() {
            return json!({"start": end, "end": start});
        }
        json!({"start": start, "end": end})
    }

    fn change(&mut self, net: &mut Net, i: usize) {
        let mut t = self.docs[i].text.to_string();
        let mut changes = Vec::new();
        let kind = net.src.weighted(&[8, 2, 4, 2, 3, 1]);
        let n = match kind {
            0 | 1 => 1,
            2 | 3 => net.src.range(2, 4),
            4 => 1,
            _ => 0,
        };
        for k in 0..n {
            let full = kind == 1 || kind == 3 && net.src.chance(1, 2);
            if full {
                t = if net.src.chance(1, 3) {
                    let h = &self.docs[i].history;
                    h[net.src.idx(h.len())].to_string()
                } else {
                    let mut fresh = self.doc_text(&mut net.src);
                    if net.src.chance(1, 10) {
                        fresh.clear();
                    }
                    fresh
                };
                changes.push(json!({"text": t}));
            } else if kind == 4 {
                // back to an earlier text by one minimal edit
                let h = &self.docs[i].history;
                let old = h[net.src.idx(h.len())].to_string();
                let (a, b, new) = diff(&t, &old);
                let range = self.range_of(&mut net.src, &t, a, b);
                changes.push(json!({"range": range, "text": new}));
                t = old;
            } else {
                let (a, b, new) = self.edit(&mut net.src, &t);
                let range = self.range_of(&mut net.src, &t, a, b);
                let mut c = json!({"range": range, "text": new});
                if k == 0 && net.src.chance(1, 8) {
                    c["rangeLength"] = json!(self.enc.len(&t[a..b]));
                }
                t.replace_range(a..b, &new);
                changes.push(c);
            }
        }
        let names = ["edit", "full", "edits", "mixed", "undo", "empty"];
        net.ctx.probe(&format!("change-{}", names[kind]));
        self.send_change(net, i, changes, t);
    }

    fn send_change(&mut self, net: &mut Net, i: usize, changes: Vec<Value>, t: String) {
        let d = &mut self.docs[i];
        d.version += 1;
        d.text = t.into();
        if d.history.len() < 6 {
            d.history.push(d.text.clone());
        }
        let params = json!({"textDocument": {"uri": d.uri, "version": d.version}, "contentChanges": changes});
        self.notify(net, "textDocument/didChange", params);
    }

    fn resync(&mut self, net: &mut Net, i: usize) {
        let t = self.docs[i].text.to_string();
        self.docs[i].fuzzy = false;
        self.send_change(net, i, vec![json!({"text": t})], t.clone());
    }

    // ---- requests ----

    fn some_pos(&self, src: &mut Source, t: &str) -> Pos {
        let items = oracle::items(t);
        if items.is_empty() || src.chance(1, 4) {
            let at = Self::spot(src, t);
            let mut p = text::position(t, self.enc, at);
            if at == text::lines(t)[p.0 as usize].1 && src.chance(1, 3) {
                p.1 += *src.pick(&[1u32, 3, 40, 0x7fff_0000]);
            }
            return p;
        }
        let i = &items[src.idx(items.len())];
        let at = match src.below(4) {
            0 => i.start,
            1 => i.end - 1,
            2 => (i.start + i.end) / 2,
            _ => i.end,
        };
        text::position(t, self.enc, at)
    }

    fn ask_hover(&mut self, net: &mut Net, uri: &str, text: Option<Rc<str>>, at: Pos, keep: bool) -> String {
        let params = json!({"textDocument": {"uri": uri}, "position": {"line": at.0, "character": at.1}});
        let e = Expect::Hover { text, at, trig: self.trig, want: self.client_cfg, keep };
        self.request(net, "textDocument/hover", params, e)
    }

    /// Asks about a document that is not open.
    fn ask_closed(&mut self, net: &mut Net, uri: &str) {
        let method = *net.src.pick(&["textDocument/hover", "textDocument/documentSymbol", "textDocument/semanticTokens/full"]);
        let mut at = (0, 0);
        let mut expect = Expect::Any;
        if let Some(d) = self.docs.iter().find(|d| d.uri == uri && d.deleted) {
            expect = Expect::Deleted;
            if let Some(i) = oracle::items(&d.text).first() {
                at = text::position(&d.text, self.enc, i.start);
            }
        }
        let params = json!({"textDocument": {"uri": uri}, "position": {"line": at.0, "character": at.1}});
        self.request(net, method, params, expect);
    }

    fn ask(&mut self, net: &mut Net) {
        let open = self.open_docs();
        if open.is_empty() || net.src.chance(1, 8) {
            // a document nobody knows, or one that is closed
            let closed: Vec<String> = self.docs.iter().filter(|d| !d.open).map(|d| d.uri.clone()).collect();
            let uri = if closed.is_empty() || net.src.chance(1, 2) {
                "file:///nobody/knows.mabo".to_owned()
            } else {
                closed[net.src.idx(closed.len())].clone()
            };
            self.ask_closed(net, &uri);
            return;
        }
        let i = open[net.src.idx(open.len())];
        let uri = self.docs[i].uri.clone();
        let text = (!self.docs[i].fuzzy).then(|| self.docs[i].text.clone());
        let w = if self.prop == "L08" { [8, 1, 1] } else { [3, 2, 2] };
        match net.src.weighted(&w) {
            0 => {
                let t = self.docs[i].text.clone();
                let at = self.some_pos(&mut net.src, &t);
                self.ask_hover(net, &uri, text, at, false);
            }
            1 => {
                let p = json!({"textDocument": {"uri": uri}});
                self.request(net, "textDocument/documentSymbol", p, Expect::Symbols { text, keep: false });
            }
            _ => {
                let p = json!({"textDocument": {"uri": uri}});
                self.request(net, "textDocument/semanticTokens/full", p, Expect::Tokens { text, keep: false });
            }
        }
    }

    fn odd_ask(&mut self, net: &mut Net) {
        if net.src.chance(1, 2) {
            let m = *net.src.pick(UNSUPPORTED);
            let p = match net.src.below(3) {
                0 => Value::Null,
                1 => json!({}),
                _ => json!({"textDocument": {"uri": "file:///project/doc1.mabo"}, "position": {"line": 0, "character": 0}}),
            };
            net.ctx.fault("unsupported-request");
            self.request(net, m, p, Expect::Error);
        } else {
            let m = *net.src.pick(&["textDocument/hover", "textDocument/documentSymbol", "textDocument/semanticTokens/full"]);
            let p = match net.src.below(7) {
                0 => Value::Null,
                1 => json!({}),
                2 => json!({"textDocument": {"uri": 7}}),
                3 => json!({"textDocument": {"uri": "file:///project/doc1.mabo"}, "position": {"line": -1, "character": "x"}, "workDoneToken": {}}),
                4 => json!("text"),
                5 => json!({"textDocument": null, "position": null}),
                _ => json!({"textDocument": {"uri": "not a uri \u{7f} %"}, "position": {"line": 0, "character": 4_294_967_296u64}}),
            };
            net.ctx.fault("malformed-request");
            self.request(net, m, p, Expect::Error);
        }
    }

    fn odd_note(&mut self, net: &mut Net) {
        let uri = self.docs.first().map_or("file:///x.mabo".to_owned(), |d| d.uri.clone());
        let (m, p) = match net.src.below(9) {
            0 => {
                self.cancel(net);
                ("$/cancelRequest", json!({"id": self.next_id + net.src.below(3)}))
            }
            1 => ("textDocument/didSave", json!({"textDocument": {"uri": uri}})),
            2 => ("mabo/notAThing", Value::Null),
            3 => ("textDocument/didChange", json!({"textDocument": {"uri": uri}, "contentChanges": "x"})),
            4 => ("textDocument/didOpen", json!({"textDocument": {"uri": uri}})),
            5 => ("textDocument/didClose", json!(null)),
            6 => ("workspace/didDeleteFiles", json!({"files": [{"uri": 5}]})),
            7 => ("$/setTrace", json!({"value": "off"})),
            _ => ("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": 3}, "contentChanges": [{"range": 5, "text": "x"}]})),
        };
        net.ctx.fault("odd-notification");
        self.notify(net, m, p);
    }

    fn set_config(&mut self, net: &mut Net) {
        self.client_cfg = Hov { next: net.src.chance(1, 2), size: net.src.chance(1, 2) };
        self.trig += 1;
        let v = cfg_value(self.client_cfg);
        let p = if net.src.chance(1, 2) { json!({"settings": {"mabo": v}}) } else { json!({"settings": null}) };
        self.notify(net, "workspace/didChangeConfiguration", p);
    }

    // ---- steps ----

    fn stall(&mut self, net: &mut Net) {
        if self.plan.stalls == 0 {
            return;
        }
        let long = self.plan.stalls == 2 && net.src.chance(1, 2);
        let d = if long { net.src.range(1800, 6000) } else { net.src.range(10, 1200) } * MS;
        if long {
            self.long_stall = true;
        }
        net.stall_until = net.stall_until.max(net.now + d);
        self.stall_log.push((net.now, net.stall_until));
        net.ev(format!("editor stops reading for {} ms", d / MS));
        net.ctx.fault(if long { "long-stall" } else { "stall" });
    }

    fn hostile(&mut self, net: &mut Net) {
        net.ctx.fault("hostile");
        let open = self.open_docs();
        if open.is_empty() || net.src.chance(1, 4) {
            let t = crate::hostile::text(&mut net.src);
            let uri = self.new_uri(net);
            let i = self.open(net, uri, t);
            self.docs[i].history.clear();
            let calm: Rc<str> = "struct Calm(u8 @1)\n".into();
            self.docs[i].history.push(calm);
            if net.src.chance(1, 2) {
                let uri = self.docs[i].uri.clone();
                self.request(net, "textDocument/documentSymbol", json!({"textDocument": {"uri": uri}}), Expect::Any);
                self.request(net, "textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}}), Expect::Any);
            }
            return;
        }
        let i = open[net.src.idx(open.len())];
        let uri = self.docs[i].uri.clone();
        let num = |src: &mut Source| -> u64 {
            *src.pick(&[0u64, 1, 2, 5, 17, 1000, 65535, 65536, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff])
        };
        match net.src.below(5) {
            0 => {
                let (l, c) = (num(&mut net.src), num(&mut net.src));
                let params = json!({"textDocument": {"uri": uri}, "position": {"line": l, "character": c}});
                self.request(net, "textDocument/hover", params, Expect::Any);
            }
            1 | 2 => {
                // any range at all
                let mut changes = Vec::new();
                for _ in 0..net.src.range(1, 3) {
                    let r: Vec<u64> = (0..4).map(|_| num(&mut net.src)).collect();
                    let new = self.snippet(&mut net.src);
                    changes.push(json!({"range": {"start": {"line": r[0], "character": r[1]}, "end": {"line": r[2], "character": r[3]}}, "text": new}));
                }
                self.docs[i].version += 1;
                self.docs[i].fuzzy = true;
                let v = self.docs[i].version;
                self.notify(net, "textDocument/didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": changes}));
            }
            3 => {
                // a change to a document the server has not seen
                let p = json!({"textDocument": {"uri": "file:///never/opened.mabo", "version": 2},
                    "contentChanges": [{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "text": "x"}]});
                self.notify(net, "textDocument/didChange", p);
            }
            _ => {
                let t = crate::hostile::text(&mut net.src);
                self.send_change(net, i, vec![json!({"text": t})], t.clone());
                self.docs[i].history.retain(|h| h.len() < 2000);
                if self.docs[i].history.is_empty() {
                    self.docs[i].history.push("struct Calm(u8 @1)\n".into());
                }
            }
        }
    }

    fn one_step(&mut self, net: &mut Net) {
        let open = self.open_docs();
        let mut w = self.plan.weights;
        if open.is_empty() {
            w[0] += 10;
            w[1] = 0;
            w[6] = 0;
        }
        if open.len() > 4 {
            w[0] = 0;
        }
        let k = net.src.weighted(&w);
        match k {
            0 => {
                if !self.workspace.is_empty() && net.src.chance(1, 3) {
                    self.open_file(net);
                    return;
                }
                let uri = self.new_uri(net);
                let t = self.doc_text(&mut net.src);
                self.open(net, uri, t);
            }
            1 => {
                let i = open[net.src.idx(open.len())];
                if self.docs[i].fuzzy {
                    self.resync(net, i);
                } else {
                    self.change(net, i);
                }
            }
            2 | 3 => {
                if k == 2 {
                    self.ask(net);
                } else {
                    self.odd_ask(net);
                }
                if self.plan.weights[4] > 0 && net.src.chance(1, 6) {
                    self.cancel(net);
                }
            }
            4 => self.odd_note(net),
            5 => self.set_config(net),
            6 => {
                let i = open[net.src.idx(open.len())];
                self.docs[i].open = false;
                let uri = self.docs[i].uri.clone();
                self.notify(net, "textDocument/didClose", json!({"textDocument": {"uri": uri}}));
                if net.src.chance(1, 4) {
                    self.delete(net, &[uri.clone()]);
                    if net.src.chance(1, 2) {
                        self.ask_closed(net, &uri);
                    }
                }
            }
            7 => {
                let closed: Vec<usize> = (0..self.docs.len()).filter(|i| !self.docs[*i].open).collect();
                if closed.is_empty() {
                    return;
                }
                let i = closed[net.src.idx(closed.len())];
                // mostly with what the server saw last
                let t = match net.src.below(4) {
                    0 | 1 => self.docs[i].text.to_string(),
                    2 => altered(&mut net.src, &self.docs[i].text),
                    _ => self.doc_text(&mut net.src),
                };
                let uri = self.docs[i].uri.clone();
                self.open(net, uri, t);
            }
            8 => {
                // files that are not open vanish
                let mut files: Vec<String> = self.docs.iter().filter(|d| !d.open).map(|d| d.uri.clone()).collect();
                let near = self.docs.first().map(|d| d.uri.clone()).unwrap_or_default();
                files.push(near[..near.len().saturating_sub(1)].to_owned());
                files.push(format!("{near}x"));
                self.delete(net, &files);
            }
            9 => self.stall(net),
            10 => self.hostile(net),
            _ => {}
        }
    }

    /// The editor leaves early.
    fn vanish(&mut self, net: &mut Net, how: u64) {
        // before the handshake is complete, shutdown is refused and need not end anything
        let early = self.phase < Phase::Run;
        self.leaving = true;
        self.phase = Phase::End;
        net.ctx.nontrivial = true;
        let names = ["close-input", "gone", "gone-later", "torn-frame", "exit-only", "shutdown-then-silence", "shutdown-then-work"];
        net.ctx.fault(names[how as usize]);
        match how {
            0 => net.close(),
            1 => {
                net.gone_at = Some(net.now);
                net.close();
            }
            2 => {
                net.gone_at = Some(net.now);
                net.swallow = net.src.below(4) as u32;
                net.close();
            }
            3 => {
                let whole = frame(&json!({"jsonrpc": "2.0", "id": 1, "method": "textDocument/hover", "params": {}}));
                let cut = net.src.range(1, whole.len() as u64 - 1) as usize;
                net.post("torn frame", whole[..cut].to_vec());
                net.close();
            }
            4 => {
                self.notify(net, "exit", Value::Null);
                if net.src.chance(1, 2) {
                    net.close();
                }
            }
            5 => {
                self.request(net, "shutdown", Value::Null, Expect::Shutdown);
                if early || net.src.chance(1, 2) {
                    net.close();
                }
            }
            _ => {
                self.request(net, "shutdown", Value::Null, Expect::Shutdown);
                for i in self.open_docs() {
                    let t = format!("{}\nstruct After(u8 @1)\n", self.docs[i].text);
                    self.send_change(net, i, vec![json!({"text": t})], t.clone());
                }
                let uri = self.new_uri(net);
                self.open(net, uri, "struct Late(u8 @1)".into());
                if net.src.chance(1, 2) {
                    self.notify(net, "exit", Value::Null);
                }
                if early || net.src.chance(1, 2) {
                    net.close();
                }
            }
        }
        net.schedule(self.busy + 40 * SEC, Event::MustEnd);
    }

    fn boot(&mut self, net: &mut Net) {
        for _ in 0..net.src.below(3) {
            match net.src.below(3) {
                0 => {}
                1 => self.notify(net, "$/setTrace", json!({"value": "off"})),
                _ => {
                    net.ctx.fault("request-before-initialize");
                    self.request(net, "textDocument/hover", json!({}), Expect::Error);
                }
            }
        }
        let mut kinds = vec!["utf-8", "utf-16", "utf-32"];
        net.src.shuffle(&mut kinds);
        let n = net.src.range(1, 3) as usize;
        kinds.truncate(n);
        let offer = net.src.weighted(&[6, 1, 1, 1]);
        let mut general = json!({});
        match offer {
            0 => {}
            1 => kinds.clear(),
            2 => kinds = vec![],
            _ => kinds.insert(net.src.idx(n + 1), "utf-7"),
        }
        if offer != 1 {
            general["positionEncodings"] = json!(kinds);
        }
        self.offered = kinds.iter().map(|s| (*s).to_owned()).collect();
        let folders = match net.src.below(4) {
            0 => Value::Null,
            1 => json!([]),
            _ => match std::env::var("SIM_PROJECTS") {
                Ok(dir) if net.src.chance(1, 2) => {
                    let k = net.src.below(3);
                    net.ctx.probe("workspace-folder");
                    let names = ["p0/src/good.mabo", "p0/src/bad.mabo", "p0/src/dup.mabo", "p0/src/wide.mabo", "p1/crlf.mabo", "p1/wide.mabo"];
                    for n in names.iter().filter(|n| n.starts_with(&format!("p{k}/"))) {
                        let t = std::fs::read_to_string(format!("{dir}/{n}")).unwrap_or_default();
                        self.workspace.push((format!("{dir}/{n}"), t.clone()));
                        self.workspace.push((format!("file://{dir}/{n}"), t));
                    }
                    json!([{"uri": format!("file://{dir}/p{k}"), "name": "p"}])
                }
                _ => json!([{"uri": "file:///does/not/exist", "name": "x"}]),
            },
        };
        let params = json!({
            "processId": null, "rootUri": null, "workspaceFolders": folders,
            "capabilities": {"general": general, "workspace": {"configuration": true,
                "didChangeConfiguration": {"dynamicRegistration": true}}},
        });
        self.request(net, "initialize", params, Expect::Initialize);
        self.phase = Phase::WaitInit;
    }

    fn pause(&mut self, net: &mut Net) -> u64 {
        if self.burst_left > 0 {
            self.burst_left -= 1;
            return 0;
        }
        if self.plan.burst > 0 && net.src.chance(self.plan.burst, 8) {
            self.burst_left = net.src.range(1, 6);
        }
        match net.src.weighted(&[4, 4, 2, 1]) {
            0 => net.src.below(3) * MS,
            1 => net.src.below(100) * MS,
            2 => net.src.below(1500) * MS,
            _ => net.src.below(5000) * MS,
        }
    }

    fn act(&mut self, net: &mut Net) -> Verdict {
        if let Some((at, how)) = self.plan.vanish {
            if self.step >= at && self.phase <= Phase::Run {
                self.plan.vanish = None;
                self.vanish(net, how);
                return Ok(());
            }
        }
        match self.phase {
            Phase::Boot => {
                self.step += 1;
                self.boot(net);
                if self.plan.vanish.is_some() {
                    // the editor may leave before the answer
                    net.schedule(net.now + 3 * MS, Event::Act);
                }
            }
            Phase::WaitInit => {}
            Phase::Run => {
                self.step += 1;
                if self.step > self.plan.steps + 2 {
                    self.phase = Phase::Quiesce;
                    net.ev("editor settles");
                    self.request(net, "textDocument/documentSymbol", json!({"textDocument": {"uri": "file:///barrier"}}), Expect::Barrier);
                    return Ok(());
                }
                self.one_step(net);
                let d = self.pause(net);
                net.schedule(net.now + d, Event::Act);
            }
            _ => {}
        }
        Ok(())
    }

    /// The server has answered everything before the barrier.
    fn settled(&mut self, net: &mut Net) -> Verdict {
        if let Some((k, r)) = self.reqs.iter().find(|(_, r)| !r.answered) {
            let msg = format!("request {k} (arrived at {} us) is unanswered although a later one is answered", r.arrival);
            self.verdict("response-missing", msg)?;
        }
        match self.phase {
            Phase::Quiesce => {
                self.settings_left = if self.prop == "L08" { net.src.range(1, 4) } else { 0 };
                self.phase = Phase::Settings;
                self.settings_round(net)
            }
            Phase::Settings => self.settings_round(net),
            Phase::Verify => {
                self.compare()?;
                self.phase = Phase::Shutdown;
                net.ctx.nontrivial = true;
                self.request(net, "shutdown", Value::Null, Expect::Shutdown);
                Ok(())
            }
            _ => Ok(()),
        }
    }

    fn settings_round(&mut self, net: &mut Net) -> Verdict {
        if self.settings_left == 0 {
            self.verify(net);
            return Ok(());
        }
        self.settings_left -= 1;
        self.set_config(net);
        let uri = self.new_uri(net);
        let t: Rc<str> = "/// c\nstruct S {\n  f: u32 @3,\n}\nenum E { A(u8 @1) @7, B }\n".into();
        self.open(net, uri.clone(), t.to_string());
        for i in oracle::items(&t) {
            let at = text::position(&t, self.enc, i.start);
            self.ask_hover(net, &uri, Some(t.clone()), at, false);
        }
        self.request(net, "textDocument/documentSymbol", json!({"textDocument": {"uri": "file:///barrier"}}), Expect::Barrier);
        Ok(())
    }

    fn verify(&mut self, net: &mut Net) {
        self.phase = Phase::Verify;
        net.ev("editor compares with fresh documents");
        for i in self.open_docs() {
            if self.docs[i].fuzzy || self.long_stall || self.prop == "L07" {
                self.resync(net, i);
            }
            let (uri, t) = (self.docs[i].uri.clone(), self.docs[i].text.clone());
            let copy = format!("file:///fresh/{i}.mabo");
            let j = self.open(net, copy.clone(), t.to_string());
            let mut keys = Vec::new();
            let p = |u: &str| json!({"textDocument": {"uri": u}});
            let sy = |keep| Expect::Symbols { text: Some(t.clone()), keep };
            let a = self.request(net, "textDocument/documentSymbol", p(&uri), sy(true));
            let b = self.request(net, "textDocument/documentSymbol", p(&copy), sy(true));
            keys.push(("symbols".to_owned(), a, b));
            let to = |keep| Expect::Tokens { text: Some(t.clone()), keep };
            let a = self.request(net, "textDocument/semanticTokens/full", p(&uri), to(true));
            let b = self.request(net, "textDocument/semanticTokens/full", p(&copy), to(true));
            keys.push(("tokens".to_owned(), a, b));
            let items = oracle::items(&t);
            for k in 0..items.len().min(3) {
                let it = &items[(k * 7 + self.step as usize) % items.len()];
                let at = text::position(&t, self.enc, it.start);
                let a = self.ask_hover(net, &uri, Some(t.clone()), at, true);
                let b = self.ask_hover(net, &copy, Some(t.clone()), at, true);
                keys.push((format!("hover at {at:?}"), a, b));
            }
            self.pairs.push((i, j, keys));
        }
        self.request(net, "textDocument/documentSymbol", json!({"textDocument": {"uri": "file:///barrier"}}), Expect::Barrier);
    }

    fn compare(&mut self) -> Verdict {
        for (i, j, keys) in &self.pairs {
            let (d, copy) = (&self.docs[*i], &self.docs[*j]);
            for (what, a, b) in keys {
                if self.answers.get(a) != self.answers.get(b) {
                    self.verdict(
                        "fresh",
                        format!(
                            "{}: {what} differs from a freshly opened document with the same text {:?}: {:?} / {:?}",
                            d.uri, d.text, self.answers.get(a), self.answers.get(b)
                        ),
                    )?;
                }
            }
            for x in [d, copy] {
                let Some(p) = &x.published else {
                    self.verdict("diagnostics", format!("nothing was ever published for {}", x.uri))?;
                    continue;
                };
                self.filter(oracle::diagnostics(&x.text, self.enc, &x.uri, p))?;
            }
            let strip = |v: &Option<Value>| -> Vec<(Value, Value)> {
                v.iter().flat_map(|v| v.as_array().into_iter().flatten()).map(|d| (d["range"].clone(), d["message"].clone())).collect()
            };
            if strip(&d.published) != strip(&copy.published) {
                self.verdict(
                    "fresh-diagnostics",
                    format!(
                        "{}: diagnostics {:?} differ from those of a fresh document with the same text {:?}: {:?}",
                        d.uri, d.published, d.text, copy.published
                    ),
                )?;
            }
        }
        Ok(())
    }

    // ---- receiving ----

    pub fn event(&mut self, net: &mut Net, ev: &Event) -> Verdict {
        match ev {
            Event::Act => self.act(net),
            Event::Reply(i) => {
                let (name, bytes, cfg) = self.replies[*i].clone();
                if self.leaving {
                    return Ok(());
                }
                let at = net.post(&name, bytes);
                if self.phase >= Phase::Shutdown {
                    // a reply between shutdown and exit may spoil the exit status, nothing else
                    self.spoiled = true;
                }
                if let Some(c) = cfg {
                    let waited = at.saturating_sub(c.sent);
                    if let Some(new) = c.new {
                        if waited <= 1900 * MS {
                            self.in_force = vec![new];
                        } else if waited < 2100 * MS && !self.in_force.contains(&new) {
                            self.in_force.push(new);
                        }
                    }
                }
                Ok(())
            }
            Event::Due(key) => self.due(net, key),
            Event::MustEnd => Err(("hang".into(), "the server process did not end in time".into())),
            Event::Read => Ok(()),
        }
    }

    fn due(&mut self, net: &mut Net, key: &str) -> Verdict {
        let Some(r) = self.reqs.get(key) else { return Ok(()) };
        if r.answered || self.leaving {
            return Ok(());
        }
        // time during which the editor did not read does not count
        let stalled: u64 = self.stall_log.iter().map(|(a, b)| b.min(&net.now).saturating_sub((*a).max(r.arrival))).sum();
        let due = r.due + stalled;
        if due > net.now {
            net.schedule(due, Event::Due(key.to_owned()));
            return Ok(());
        }
        self.verdict("late", format!("request {key} is unanswered {} ms after it arrived", (net.now - r.arrival) / MS))?;
        if net.now > r.due + stalled + 60 * SEC {
            return Err(("hang".into(), format!("request {key} is never answered")));
        }
        net.schedule(net.now + 61 * SEC, Event::Due(key.to_owned()));
        Ok(())
    }

    pub fn receive(&mut self, net: &mut Net, sent: u64, v: &Value) -> Verdict {
        let has_id = v.get("id").is_some();
        if let Some(method) = v["method"].as_str() {
            net.ev(format!("editor <- {method}"));
            if has_id {
                self.reply(net, sent, v, method);
                return Ok(());
            }
            if method == "textDocument/publishDiagnostics" {
                return self.published(v);
            }
            return Ok(());
        }
        if !has_id {
            return Err(("frame".into(), format!("neither request, response nor notification: {v}")));
        }
        self.response(net, v)
    }

    fn published(&mut self, v: &Value) -> Verdict {
        if self.shutdown_answered {
            self.verdict("after-shutdown", format!("diagnostics after shutdown: {}", v["params"]))?;
        }
        let uri = v["params"]["uri"].as_str().unwrap_or("").to_owned();
        match self.docs.iter_mut().find(|d| d.uri == uri) {
            Some(d) => d.published = Some(v["params"]["diagnostics"].clone()),
            None => {
                if self.prop != "L07" {
                    return self.verdict("diagnostics", format!("diagnostics for {uri}, which was never opened"));
                }
            }
        }
        Ok(())
    }

    fn response(&mut self, net: &mut Net, v: &Value) -> Verdict {
        let key = v["id"].to_string();
        net.ev(format!("editor <- {} {key}", if v.get("error").is_some_and(|e| !e.is_null()) { "error" } else { "result" }));
        let Some(r) = self.reqs.get_mut(&key) else {
            return self.verdict("response-unknown", format!("response for {key}, which was not asked for"));
        };
        if r.answered {
            return self.verdict("response-duplicate", format!("second response for {key}"));
        }
        r.answered = true;
        let (order, cancelled) = (r.order, r.cancelled);
        let expect = std::mem::replace(&mut r.expect, Expect::Any);
        if order < self.last_answered {
            self.verdict("response-order", format!("response to {key} overtaken by a later request's"))?;
        }
        self.last_answered = self.last_answered.max(order);
        let error = v.get("error").filter(|e| !e.is_null());
        let result = v.get("result").cloned().unwrap_or(Value::Null);
        if error.is_some_and(|e| !e["code"].is_i64() || !e["message"].is_string()) {
            return Err(("frame".into(), format!("malformed error response {v}")));
        }
        if error.is_none() && v.get("result").is_none() {
            // lsp-server leaves a null result out only if there is none at all
            self.verdict("response-kind", format!("response {key} has neither result nor error"))?;
        }
        if cancelled && error.is_some_and(|e| e["code"] == -32800) {
            // the one other answer a cancelled request may get
            return Ok(());
        }
        match &expect {
            Expect::Any | Expect::Deleted => {}
            Expect::Error => {
                if error.is_none() {
                    self.verdict("response-kind", format!("request {key} cannot be served, but got result {result}"))?;
                }
            }
            _ => {
                if let Some(e) = error {
                    self.verdict("response-kind", format!("request {key} failed: {e}"))?;
                    if !matches!(expect, Expect::Barrier | Expect::Shutdown) {
                        // the content oracles have nothing to look at
                        let class = match expect {
                            Expect::Hover { .. } => "hover-item",
                            Expect::Symbols { .. } => "symbols",
                            Expect::Tokens { .. } => "tokens",
                            _ => "response-kind",
                        };
                        return self.verdict(class, format!("request {key} failed: {e}"));
                    }
                }
            }
        }
        match expect {
            Expect::Any | Expect::Error => Ok(()),
            Expect::Deleted => {
                let empty = |v: &Value| v.is_null() || v.as_array().is_some_and(Vec::is_empty);
                if empty(&result) || result.is_object() && result.get("data").is_some_and(empty) {
                    return Ok(());
                }
                self.verdict("deleted", format!("request {key} about a deleted document is answered with {result}"))
            }
            Expect::Initialize => self.initialized(net, &result),
            Expect::Shutdown => {
                self.shutdown_answered = true;
                if !self.leaving {
                    self.leaving = true;
                    self.clean = true;
                    self.notify(net, "exit", Value::Null);
                    if net.src.chance(1, 2) {
                        net.close();
                    } else {
                        // a client that keeps the pipe open until the process is gone
                        net.ev("editor waits for the process to end");
                    }
                    net.schedule(net.now + 10 * SEC, Event::MustEnd);
                }
                Ok(())
            }
            Expect::Barrier => self.settled(net),
            Expect::Hover { text, at, trig, want, keep } => {
                if keep {
                    self.answers.insert(key, result.clone());
                }
                let Some(text) = text else { return Ok(()) };
                let settings = if self.cfg_seen == trig {
                    self.in_force.clone()
                } else if self.cfg_seen < trig && !self.long_stall && net.capacity > 8 {
                    // never asked for: only what the editor holds can be right
                    vec![want]
                } else {
                    Vec::new()
                };
                let lost = self.cfg_seen < trig;
                let verdict = oracle::hover(&text, self.enc, at, &settings, &result);
                self.filter(verdict.map_err(|(c, d)| if lost && c == "settings" { ("settings-lost".to_owned(), d) } else { (c, d) }))
            }
            Expect::Symbols { text, keep } => {
                if keep {
                    self.answers.insert(key, result.clone());
                }
                let Some(text) = text else { return Ok(()) };
                self.filter(oracle::symbols(&text, self.enc, &result))
            }
            Expect::Tokens { text, keep } => {
                if keep {
                    self.answers.insert(key, result.clone());
                }
                let Some(text) = text else { return Ok(()) };
                self.filter(oracle::tokens(&text, self.enc, &self.legend, &result))
            }
        }
    }

    fn initialized(&mut self, net: &mut Net, result: &Value) -> Verdict {
        let caps = &result["capabilities"];
        let name = caps["positionEncoding"].as_str().unwrap_or("utf-16").to_owned();
        net.ev(format!("announced encoding {name}, offered {:?}", self.offered));
        let allowed = name == "utf-16" || self.offered.contains(&name);
        let Some(enc) = Enc::parse(&name).filter(|_| allowed) else {
            self.verdict("encoding", format!("announced position encoding {name}, offered {:?}", self.offered))?;
            // nothing can be judged by position in this session
            net.ctx.probe("session-without-encoding");
            self.phase = Phase::Shutdown;
            self.trig += 1;
            self.notify(net, "initialized", json!({}));
            self.request(net, "shutdown", Value::Null, Expect::Shutdown);
            return Ok(());
        };
        self.enc = enc;
        net.ctx.probe(&format!("encoding-{name}"));
        let strings = |v: &Value| -> Vec<String> {
            v.as_array().into_iter().flatten().filter_map(|s| s.as_str().map(str::to_owned)).collect()
        };
        let legend = &caps["semanticTokensProvider"]["legend"];
        self.legend = Legend { types: strings(&legend["tokenTypes"]), modifiers: strings(&legend["tokenModifiers"]) };
        if self.phase != Phase::WaitInit {
            return Ok(());
        }
        self.phase = Phase::Run;
        self.trig += 1;
        self.notify(net, "initialized", json!({}));
        let d = self.pause(net);
        net.schedule(net.now + d, Event::Act);
        Ok(())
    }

    /// The server asks something; decides what it gets, and when.
    fn reply(&mut self, net: &mut Net, sent: u64, v: &Value, method: &str) {
        let id = v["id"].clone();
        let calm = self.phase >= Phase::Quiesce;
        let policy = if calm { 0 } else { net.src.weighted(&self.plan.reply) };
        let cfg = method == "workspace/configuration";
        if cfg {
            self.cfg_seen += 1;
        }
        let good = if cfg { json!([cfg_value(self.client_cfg)]) } else { Value::Null };
        let names = ["prompt", "slow", "late", "never", "error", "null", "invalid", "duplicate", "stale-first"];
        if policy > 0 {
            net.ctx.fault(&format!("reply-{}", names[policy]));
        }
        net.ev(format!("editor will answer {method} {id}: {}", names[policy]));
        let ok = json!({"jsonrpc": "2.0", "id": id, "result": good});
        let now = net.now;
        let mut plan: Vec<(u64, Value, Option<Option<Hov>>)> = Vec::new();
        let mine = Some(cfg.then_some(self.client_cfg));
        match policy {
            0 => plan.push((now, ok, mine)),
            1 => plan.push((now + net.src.range(50, 1750) * MS, ok, mine)),
            2 => plan.push((sent.max(now) + net.src.range(2150, 7000) * MS, ok, mine)),
            3 => {}
            4 => plan.push((now, json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32603, "message": "no"}}), Some(None))),
            5 => plan.push((now, json!({"jsonrpc": "2.0", "id": id, "result": if cfg && net.src.chance(1, 2) { json!([null]) } else { Value::Null }}), Some(None))),
            6 => {
                let bad = net
                    .src
                    .pick(&[
                        json!([]),
                        json!([{"hover": {"showNextId": 5, "showWireSize": true}}]),
                        json!("text"),
                        json!([cfg_value(self.client_cfg), cfg_value(self.client_cfg)]),
                        json!([17]),
                        json!({"hover": 1}),
                    ])
                    .clone();
                plan.push((now, json!({"jsonrpc": "2.0", "id": id, "result": bad}), Some(None)));
            }
            7 => {
                plan.push((now, ok.clone(), mine));
                let gap = net.src.below(3000) * MS;
                plan.push((now + gap, ok, None));
            }
            _ => {
                let other = if self.past_ids.is_empty() || net.src.chance(1, 3) {
                    json!(987_654)
                } else {
                    self.past_ids[net.src.idx(self.past_ids.len())].clone()
                };
                let mut wrong = Hov { next: !self.client_cfg.next, size: !self.client_cfg.size };
                if net.src.chance(1, 2) {
                    std::mem::swap(&mut wrong.next, &mut wrong.size);
                }
                plan.push((now, json!({"jsonrpc": "2.0", "id": other, "result": [cfg_value(wrong)]}), None));
                plan.push((now + net.src.below(500) * MS, ok, mine));
            }
        }
        self.past_ids.push(id);
        for (at, v, new) in plan {
            let label = format!("reply {} ({})", v["id"], names[policy]);
            let cfg = new.filter(|_| cfg).map(|new| CfgReply { sent, new });
            self.replies.push((label, frame(&v), cfg));
            let n = self.replies.len() - 1;
            if at <= net.now {
                let _ = self.event(net, &Event::Reply(n));
            } else {
                net.schedule(at, Event::Reply(n));
            }
        }
    }

    pub fn server_ended(&mut self, net: &mut Net, joined: bool) -> Verdict {
        let _ = joined;
        if !self.leaving && net.gone_at.is_none() {
            return Err(("server-ended".into(), "the server process ended although nobody asked it to".into()));
        }
        if self.clean {
            if let Some((k, _)) = self.reqs.iter().find(|(_, r)| !r.answered) {
                let msg = format!("request {k} was never answered");
                return self.verdict("response-missing", msg);
            }
        }
        Ok(())
    }
}

fn cfg_value(h: Hov) -> Value {
    json!({"hover": {"showNextId": h.next, "showWireSize": h.size}})
}

/// The smallest single replacement that turns `a` into `b`.
fn diff(a: &str, b: &str) -> (usize, usize, String) {
    let (x, y) = (a.as_bytes(), b.as_bytes());
    let mut p = x.iter().zip(y).take_while(|(p, q)| p == q).count();
    while !a.is_char_boundary(p) || !b.is_char_boundary(p) || p > 0 && x[p - 1] == b'\r' {
        p -= 1;
    }
    let max = (x.len() - p).min(y.len() - p);
    let mut s = x.iter().rev().zip(y.iter().rev()).take(max).take_while(|(p, q)| p == q).count();
    while s > 0 {
        let (i, j) = (x.len() - s, y.len() - s);
        let lf = x[i] == b'\n';
        if a.is_char_boundary(i) && b.is_char_boundary(j) && !lf {
            break;
        }
        s -= 1;
    }
    (p, x.len() - s, b[p..y.len() - s].to_owned())
}
