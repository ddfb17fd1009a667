//! The simulated world around one server process: clock, transport with finite buffers, and the
//! event queue that drives the editor. The server's own blocking calls advance it.

use std::{
    cmp::Reverse,
    collections::{BinaryHeap, VecDeque},
    io,
    process::exit,
    sync::atomic::{AtomicBool, AtomicU64, Ordering},
    time::Duration,
};

use lsp_real::Message;
use serde_json::{Value, json};
use simcore::{Ctx, Source};

use crate::editor::Editor;

pub const MS: u64 = 1_000;
pub const SEC: u64 = 1_000_000;

#[derive(Clone, Copy)]
pub enum Wait {
    Forever,
    For(Duration),
    Not,
}

pub enum Got {
    Msg(Message),
    Nothing,
    Closed,
}

pub enum Sent {
    Ok,
    Full(Message),
    Gone(Message),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Event {
    /// The editor reads the next frame.
    Read,
    /// The editor does its next scripted step.
    Act,
    /// The editor delivers the reply prepared under this number.
    Reply(usize),
    /// A request must have been answered by now.
    Due(String),
    /// The process must have ended by now.
    MustEnd,
}

struct Frame {
    at: u64,
    bytes: Vec<u8>,
    name: String,
}

/// Everything of the run except the editor.
pub struct Net {
    pub src: Source,
    pub ctx: Ctx,
    pub now: u64,
    ops: u64,
    seq: u64,
    agenda: BinaryHeap<Reverse<(u64, u64, Event)>>,
    /// Client to server, in order; `at` is the arrival time.
    c2s: VecDeque<Frame>,
    last_arrival: u64,
    /// The client's end of the server's input is closed from here on.
    pub eof_at: Option<u64>,
    reader_done: bool,
    reader_err: Option<String>,
    /// Server to client: written by the server, not yet read. With the time it was accepted.
    s2c: VecDeque<(u64, Vec<u8>)>,
    pub capacity: usize,
    /// The editor does not read before this time.
    pub stall_until: u64,
    /// The editor reads nothing any more from this time on.
    pub gone_at: Option<u64>,
    /// Messages the server can still write after that without noticing.
    pub swallow: u32,
    pub latency: u64,
    pub slow_server: bool,
    /// What the server waits for, as seen from outside (part of the state signature).
    pub last_sent: String,
    recent: VecDeque<String>,
    pub ended: bool,
}

pub struct World {
    pub net: Net,
    pub editor: Editor,
    pub senders: usize,
    joined: bool,
    out_fd: i32,
}

static mut WORLD: Option<World> = None;
static SIMULATED: AtomicBool = AtomicBool::new(false);
static CLOCK: AtomicU64 = AtomicU64::new(0);

/// The world of this (single-threaded) process.
#[expect(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().expect("not inside a simulated run") }
}

/// The process's clocks are the simulated ones during a run.
///
/// # Safety
///
/// Same contract as libc's `clock_gettime`.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !SIMULATED.load(Ordering::Relaxed) {
        return unsafe { libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int };
    }
    let us = CLOCK.load(Ordering::Relaxed);
    let base = if clock == libc::CLOCK_REALTIME { 1_700_000_000 } else { 1_000 };
    unsafe {
        (*ts).tv_sec = base + (us / SEC) as i64;
        (*ts).tv_nsec = (us % SEC) as i64 * 1_000;
    }
    0
}

/// Called by the server when it opens its connection. In the driver process this is where the whole
/// simulator runs; it returns only in a child forked for one run.
pub fn enter() {
    if std::env::var_os("SIM_ARGS").is_none() {
        eprintln!("this server runs only under the simulator (SIM_ARGS)");
        exit(2);
    }
    let r = std::panic::catch_unwind(|| simcore::main(crate::engine::find));
    match r {
        Ok(code) => {
            // ExitCode has no accessor; terminate like a main returning it
            let failed = format!("{code:?}");
            let n: i32 = failed.chars().filter(char::is_ascii_digit).collect::<String>().parse().unwrap_or(2);
            exit(n);
        }
        Err(p) if p.is::<simcore::Become>() => {}
        Err(_) => exit(2),
    }
}

#[expect(static_mut_refs)]
pub fn install(net: Net, editor: Editor, out_fd: i32) {
    unsafe {
        WORLD = Some(World { net, editor, senders: 0, joined: false, out_fd });
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_owned())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_owned());
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("SIM_DEBUG").is_some() {
            eprintln!("panic: {msg}{at}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Some(w) = unsafe { WORLD.as_mut() } {
            w.dump(json!({"class": "panic", "detail": format!("{msg}{at}")}));
            unsafe { libc::_exit(77) };
        }
    }));
    extern "C" fn at_exit() {
        if let Some(w) = unsafe { WORLD.as_mut() } {
            w.finish();
        }
    }
    unsafe { libc::atexit(at_exit) };
    SIMULATED.store(true, Ordering::Relaxed);
    CLOCK.store(0, Ordering::Relaxed);
}

impl Net {
    pub fn new(src: Source, ctx: Ctx) -> Self {
        Self {
            src,
            ctx,
            now: 0,
            ops: 0,
            seq: 0,
            agenda: BinaryHeap::new(),
            c2s: VecDeque::new(),
            last_arrival: 0,
            eof_at: None,
            reader_done: false,
            reader_err: None,
            s2c: VecDeque::new(),
            capacity: 64,
            stall_until: 0,
            gone_at: None,
            swallow: 0,
            latency: 2 * MS,
            slow_server: false,
            last_sent: String::new(),
            recent: VecDeque::new(),
            ended: false,
        }
    }

    pub fn schedule(&mut self, at: u64, ev: Event) {
        self.seq += 1;
        self.agenda.push(Reverse((at.max(self.now), self.seq, ev)));
    }

    pub fn ev(&mut self, line: impl AsRef<str>) {
        let l = format!("{:>11.6} {}", self.now as f64 / 1e6, line.as_ref());
        self.ctx.ev(l);
    }

    /// Hands a frame to the transport; returns its arrival time at the server.
    pub fn post(&mut self, name: &str, bytes: Vec<u8>) -> u64 {
        let jitter = if self.latency == 0 { 0 } else { self.src.below(self.latency + 1) };
        let at = (self.now + jitter).max(self.last_arrival);
        self.last_arrival = at;
        self.ev(format!("editor -> {name}"));
        self.c2s.push_back(Frame { at, bytes, name: name.to_owned() });
        at
    }

    /// The editor closes its writing end: nothing follows what it has sent.
    pub fn close(&mut self) {
        if self.eof_at.is_none() {
            self.eof_at = Some(self.last_arrival.max(self.now));
            self.ev("editor closes its end");
        }
    }

    fn advance(&mut self, to: u64) {
        if to > self.now {
            self.now = to;
            CLOCK.store(to, Ordering::Relaxed);
        }
    }

    fn note_state(&mut self, what: &str) {
        let q = self.c2s.iter().filter(|f| f.at <= self.now).count().min(3);
        let sig = format!("{what}|{}|q{q}|o{}", self.last_sent, self.s2c.len().min(3));
        self.recent.push_back(sig);
        if self.recent.len() > 3 {
            self.recent.pop_front();
        }
        let s: Vec<_> = self.recent.iter().cloned().collect();
        self.ctx.state(s.join(">"));
    }

    fn next_time(&self) -> Option<u64> {
        let mut t = self.agenda.peek().map(|Reverse((at, ..))| *at);
        let mut min = |x: u64| t = Some(t.map_or(x, |y| y.min(x)));
        if let Some(f) = self.c2s.front() {
            min(f.at);
        }
        if let Some(e) = self.eof_at {
            min(e);
        }
        t
    }
}

impl World {
    pub fn in_len(&self) -> usize {
        self.net.c2s.iter().filter(|f| f.at <= self.net.now).count()
    }

    pub fn out_len(&self) -> usize {
        self.net.s2c.len()
    }

    pub fn out_full(&self) -> bool {
        self.net.s2c.len() >= self.net.capacity
    }

    /// Reports a broken property and ends the process at once.
    pub fn fail(&mut self, class: &str, detail: &str) -> ! {
        self.net.ev(format!("VIOLATION {class}: {detail}"));
        self.dump(json!({"class": class, "detail": detail}));
        unsafe { libc::_exit(77) };
    }

    fn dump(&mut self, violation: Value) {
        let doc = json!({
            "violation": violation,
            "ctx": self.net.ctx.export(),
            "clean": self.editor.expects_exit_zero(),
        });
        let bytes = serde_json::to_vec(&doc).unwrap_or_default();
        let mut rest = &bytes[..];
        while !rest.is_empty() {
            let n = unsafe { libc::write(self.out_fd, rest.as_ptr().cast(), rest.len()) };
            if n <= 0 {
                break;
            }
            rest = &rest[n as usize..];
        }
    }

    fn guard(&mut self) {
        self.net.ops += 1;
        if self.net.ops > 200_000 {
            self.fail("spin", "the server calls its channels without end");
        }
    }

    /// Runs every event due up to `t`; the clock ends at `t`.
    fn run_until(&mut self, t: u64) {
        while let Some(Reverse((at, ..))) = self.net.agenda.peek() {
            if *at > t {
                break;
            }
            let Reverse((at, _, ev)) = self.net.agenda.pop().expect("peeked");
            self.net.advance(at);
            self.net.ops += 1;
            if self.net.ops > 400_000 {
                self.fail("spin", "the run does not end");
            }
            self.dispatch(ev);
        }
        self.net.advance(t);
    }

    fn dispatch(&mut self, ev: Event) {
        match ev {
            Event::Read => {
                if self.net.gone_at.is_some_and(|g| g <= self.net.now) {
                    self.net.s2c.clear();
                    return;
                }
                if self.net.stall_until > self.net.now {
                    let at = self.net.stall_until;
                    self.net.schedule(at, Event::Read);
                    return;
                }
                if let Some((sent, bytes)) = self.net.s2c.pop_front() {
                    self.read_frame(sent, &bytes);
                }
            }
            other => {
                let r = self.editor.event(&mut self.net, &other);
                self.verdict(r);
            }
        }
    }

    fn verdict(&mut self, r: Result<(), (String, String)>) {
        if let Err((class, detail)) = r {
            self.fail(&class, &detail);
        }
    }

    fn read_frame(&mut self, sent: u64, bytes: &[u8]) {
        let r = match parse_frame(bytes) {
            Ok(v) => self.editor.receive(&mut self.net, sent, &v),
            Err(e) => Err(("frame".to_owned(), format!("unreadable frame from the server: {e}"))),
        };
        self.verdict(r);
    }

    pub fn recv(&mut self, wait: Wait) -> Got {
        self.guard();
        let deadline = match wait {
            Wait::Forever => None,
            Wait::Not => Some(self.net.now),
            Wait::For(d) => Some(self.net.now.saturating_add(d.as_micros().min(1 << 50) as u64)),
        };
        if self.net.slow_server && matches!(wait, Wait::Forever) {
            let d = self.net.src.below(20 * MS);
            let t = self.net.now + d;
            self.run_until(t);
        }
        let mode = match wait {
            Wait::Forever => "main",
            Wait::Not => "poll",
            Wait::For(_) => "wait",
        };
        loop {
            self.run_until(self.net.now);
            if self.net.reader_done {
                return Got::Closed;
            }
            if let Some(f) = self.net.c2s.front() {
                if f.at <= self.net.now {
                    let f = self.net.c2s.pop_front().expect("front");
                    self.net.note_state(&format!("{mode}:{}", f.name));
                    self.net.ev(format!("server <- {}", f.name));
                    match Message::read(&mut &f.bytes[..]) {
                        Ok(Some(m)) => {
                            if matches!(&m, Message::Notification(n) if n.method == "exit") {
                                self.net.reader_done = true;
                            }
                            return Got::Msg(m);
                        }
                        Ok(None) => self.net.reader_done = true,
                        Err(e) => {
                            self.net.ev(format!("reader fails: {e}"));
                            self.net.reader_done = true;
                            self.net.reader_err = Some(e.to_string());
                        }
                    }
                    continue;
                }
            } else if self.net.eof_at.is_some_and(|e| e <= self.net.now) {
                self.net.note_state(&format!("{mode}:eof"));
                self.net.ev("server <- end of input");
                self.net.reader_done = true;
                continue;
            }
            match (self.net.next_time(), deadline) {
                (Some(t), Some(d)) if t > d => {
                    self.net.advance(d);
                    if !matches!(wait, Wait::Not) {
                        self.net.note_state(&format!("{mode}:timeout"));
                        self.net.ev("server's wait times out");
                    }
                    return Got::Nothing;
                }
                (None, Some(d)) => {
                    self.net.advance(d);
                    return Got::Nothing;
                }
                (Some(t), _) => {
                    let t = t.max(self.net.now);
                    self.run_until(t);
                }
                (None, None) => self.fail("harness", "the server waits and nothing will ever happen"),
            }
        }
    }

    pub fn send(&mut self, msg: Message, wait: Wait) -> Sent {
        self.guard();
        let name = describe(&msg);
        let deadline = match wait {
            Wait::Forever => None,
            Wait::Not => Some(self.net.now),
            Wait::For(d) => Some(self.net.now.saturating_add(d.as_micros().min(1 << 50) as u64)),
        };
        loop {
            self.run_until(self.net.now);
            if self.net.gone_at.is_some_and(|g| g <= self.net.now) {
                if self.net.swallow == 0 {
                    self.net.ev(format!("server -> {name}: peer gone"));
                    return Sent::Gone(msg);
                }
                self.net.swallow -= 1;
                return Sent::Ok;
            }
            if self.net.s2c.len() < self.net.capacity {
                break;
            }
            match (self.net.next_time(), deadline) {
                (Some(t), Some(d)) if t > d => {
                    self.net.advance(d);
                    self.net.ev(format!("server -> {name}: write times out"));
                    self.net.note_state(&format!("send-timeout:{name}"));
                    return Sent::Full(msg);
                }
                (None, Some(d)) => {
                    self.net.advance(d);
                    return Sent::Full(msg);
                }
                (None, None) => self.fail("harness", "the server writes and nothing will ever read"),
                (Some(t), _) => {
                    // messages that merely arrive do not free the buffer: look at the events only
                    let t = self.net.agenda.peek().map_or(t, |Reverse((at, ..))| *at).max(self.net.now);
                    if deadline.is_some_and(|d| t > d) {
                        self.net.advance(deadline.unwrap_or(t));
                        self.net.ev(format!("server -> {name}: write times out"));
                        return Sent::Full(msg);
                    }
                    self.run_until(t);
                }
            }
        }
        let mut bytes = Vec::new();
        msg.write(&mut bytes).expect("write into memory");
        self.net.ev(format!("server -> {name}"));
        self.net.last_sent = name;
        self.net.s2c.push_back((self.net.now, bytes));
        let lat = if self.net.latency == 0 { 0 } else { self.net.src.below(self.net.latency + 1) };
        let at = (self.net.now + lat).max(self.net.stall_until);
        self.net.schedule(at, Event::Read);
        Sent::Ok
    }

    /// The I/O threads end once input and output are closed.
    pub fn join(&mut self) -> io::Result<()> {
        self.joined = true;
        self.net.ev("server joins its I/O threads");
        while !self.net.reader_done {
            if self.net.c2s.front().is_some_and(|f| f.at <= self.net.now) {
                // nobody takes what the reader thread reads
                self.net.reader_done = true;
                self.net.reader_err = Some("sending on a disconnected channel".into());
                break;
            }
            if self.net.c2s.is_empty() && self.net.eof_at.is_some_and(|e| e <= self.net.now) {
                break;
            }
            match self.net.next_time() {
                Some(t) => {
                    let t = t.max(self.net.now);
                    self.run_until(t);
                }
                None => self.fail("harness", "join waits and nothing will ever happen"),
            }
        }
        if self.senders > 0 {
            self.fail("hang", "the writer thread never ends: the server still holds a sender while it joins the I/O threads");
        }
        match self.net.reader_err.take() {
            None => Ok(()),
            Some(e) => Err(io::Error::other(e)),
        }
    }

    /// At process exit: the editor reads what is left, then draws its conclusions.
    fn finish(&mut self) {
        if self.net.ended {
            return;
        }
        self.net.ended = true;
        self.net.ev("server process ends");
        self.net.stall_until = 0;
        if self.net.gone_at.is_none_or(|g| g > self.net.now) {
            while let Some((sent, bytes)) = self.net.s2c.pop_front() {
                self.read_frame(sent, &bytes);
            }
        }
        let r = self.editor.server_ended(&mut self.net, self.joined);
        self.verdict(r);
        self.net.ctx.sim_us = self.net.now;
        self.dump(Value::Null);
    }
}

pub fn describe(m: &Message) -> String {
    match m {
        Message::Request(r) => format!("request {}", r.method),
        Message::Response(r) => {
            format!("{} {}", if r.error.is_some() { "error" } else { "result" }, r.id)
        }
        Message::Notification(n) => n.method.clone(),
    }
}

pub fn frame(v: &Value) -> Vec<u8> {
    let body = serde_json::to_vec(v).expect("JSON");
    let mut out = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
    out.extend(body);
    out
}

fn parse_frame(bytes: &[u8]) -> Result<Value, String> {
    let at = bytes.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no header end")?;
    let head = std::str::from_utf8(&bytes[..at]).map_err(|e| e.to_string())?;
    let len: usize = head
        .lines()
        .find_map(|l| l.strip_prefix("Content-Length: "))
        .ok_or("no length")?
        .trim()
        .parse()
        .map_err(|_| "bad length")?;
    let body = &bytes[at + 4..];
    if body.len() != len {
        return Err("wrong length".into());
    }
    let v: Value = crate::json::parse(body)?;
    if v["jsonrpc"] != "2.0" {
        return Err("not JSON-RPC 2.0".into());
    }
    Ok(v)
}
