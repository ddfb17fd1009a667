//! One run is one forked process: it leaves the driver and becomes the language server.

use std::{io, panic};

use serde_json::{Value, json};
use simcore::{Become, Ctx, Engine, Info, Mirror, Source, Violation};

use crate::{
    editor::{Editor, PROPS},
    world::{self, Net},
};

const WORDS: usize = 1 << 18;

pub fn find(property: &str) -> Option<Box<dyn Engine>> {
    PROPS.contains(&property).then(|| Box::new(Lsp { property: property.to_owned() }) as Box<dyn Engine>)
}

struct Lsp {
    property: String,
}

struct Map {
    ptr: *mut u64,
    fd: i32,
}

impl Map {
    fn new() -> Self {
        unsafe {
            let fd = libc::memfd_create(c"draws".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, (WORDS * 8) as i64) == 0, "memfd");
            let ptr = libc::mmap(
                std::ptr::null_mut(),
                WORDS * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            assert!(ptr != libc::MAP_FAILED, "mmap");
            Self { ptr: ptr.cast(), fd }
        }
    }
}

impl Drop for Map {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.ptr.cast(), WORDS * 8);
            libc::close(self.fd);
        }
    }
}

fn read_all(fd: i32) -> Vec<u8> {
    let mut out = Vec::new();
    unsafe {
        let len = libc::lseek(fd, 0, libc::SEEK_END).max(0) as usize;
        out.resize(len, 0);
        let mut at = 0;
        while at < len {
            let n = libc::pread(fd, out.as_mut_ptr().add(at).cast(), len - at, at as i64);
            if n <= 0 {
                break;
            }
            at += n as usize;
        }
        out.truncate(at);
    }
    out
}

impl Engine for Lsp {
    fn run(&self, src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
        let map = Map::new();
        let out = unsafe { libc::memfd_create(c"result".as_ptr(), 0) };
        // standard output carries the protocol, nothing else may be written to it
        let console = unsafe { libc::memfd_create(c"stdout".as_ptr(), 0) };
        let base = src.log.len();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork: {}", io::Error::last_os_error());
        if pid == 0 {
            let mut child_src = std::mem::replace(src, Source::replay(Vec::new()));
            child_src.mirror = Some(Mirror { ptr: map.ptr, words: WORDS });
            let child_ctx = std::mem::replace(ctx, Ctx::new(&self.property, false, Default::default()));
            unsafe {
                let lim = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
                libc::setrlimit(libc::RLIMIT_CPU, &raw const lim);
                let mem = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &raw const mem);
                libc::alarm(100);
                // the parent's copies stay the parent's
                std::mem::forget(map);
                if std::env::var_os("SIM_DEBUG").is_none() {
                    let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                    libc::dup2(console, 1);
                    libc::dup2(null, 2);
                }
            }
            let mut net = Net::new(child_src, child_ctx);
            let editor = Editor::new(&self.property, &mut net);
            world::install(net, editor, out);
            panic::resume_unwind(Box::new(Become));
        }
        let mut status = 0;
        while unsafe { libc::waitpid(pid, &raw mut status, 0) } < 0 {}
        let doc: Value = serde_json::from_slice(&read_all(out)).unwrap_or(Value::Null);
        let stray = read_all(console);
        unsafe {
            libc::close(out);
            libc::close(console);
        }
        // the draws made in the child are the run's draws
        let n = unsafe { map.ptr.read_volatile() } as usize;
        for k in base..n.min(WORDS - 1) {
            src.log.push(unsafe { map.ptr.add(k + 1).read_volatile() });
        }
        if doc.is_object() {
            ctx.absorb(&doc["ctx"]);
        }
        if let Some(v) = doc["violation"].as_object() {
            let class = v["class"].as_str().unwrap_or("?");
            let detail = v["detail"].as_str().unwrap_or("");
            ctx.ev(format!("violation {class}: {detail}"));
            return Err(Violation::new(class, detail));
        }
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            let why = match sig {
                libc::SIGXCPU | libc::SIGALRM => "it computes without end",
                libc::SIGSEGV | libc::SIGABRT => "stack overflow or memory error",
                _ => "killed",
            };
            ctx.ev(format!("server process killed by signal {sig}"));
            return Err(Violation::new("server-crashed", format!("signal {sig}: {why}")));
        }
        if !doc.is_object() {
            return Err(Violation::new("server-crashed", format!("the server process vanished, status {status:#x}")));
        }
        if !stray.is_empty() {
            let text = String::from_utf8_lossy(&stray[..stray.len().min(200)]).into_owned();
            ctx.ev(format!("server wrote to its standard output: {text:?}"));
            return Err(Violation::new("stray-output", format!("the server wrote {text:?} into the protocol stream")));
        }
        if doc["clean"] == true && libc::WEXITSTATUS(status) != 0 {
            return Err(Violation::new(
                "server-failed",
                format!("shutdown and exit were requested, the server's exit status is {}", libc::WEXITSTATUS(status)),
            ));
        }
        Ok(())
    }

    fn info(&self) -> Info {
        Info {
            rule: crate::editor::rule(&self.property),
            components: json!({
                "real": [
                    "mabo-lsp: main, main loop, handlers, index, client, state, config, compiled unmodified from /repo",
                    "mabo-parser, mabo-compiler, mabo-meta, mabo-project as linked by mabo-lsp",
                    "lsp-server's message framing, JSON codec, request/response/notification types",
                    "line-index, ropey, serde, lsp-types",
                ],
                "stub": [
                    "the editor (client) and the transport: finite buffers, delays, stalls, disconnects",
                    "lsp-server's Connection/channels/I-O threads: same API, single-threaded, on simulated time",
                    "clock_gettime and getrandom of the process",
                ],
            }),
            assumptions: vec![
                "The lsp-server crate itself (reader and writer threads, framing over real stdio) is not under test; its Connection is replaced.".into(),
                "Positions inside a character or between CR and LF are only sent where survival is judged, not placement.".into(),
            ],
        }
    }

    fn budget(&self, tier: &str) -> (u64, u64) {
        if tier == "thorough" { (1_000_000, 1200) } else { (60_000, 45) }
    }

    fn fresh_thread(&self) -> bool {
        false
    }

    fn hang_secs(&self) -> u64 {
        120
    }
}
