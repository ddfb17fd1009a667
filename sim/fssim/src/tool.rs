//! Runs one of the real command line tools as a child process under the preloaded shim, with a plan
//! of faults, and returns its exit status and the log of its file operations.

use std::{
    cell::RefCell,
    fs::File,
    io::{Read, Seek, SeekFrom},
    os::fd::{AsRawFd, FromRawFd, OwnedFd},
    os::unix::process::{CommandExt, ExitStatusExt},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
};

const MAXLOG: usize = 8000;
const MAGIC: u32 = 0x51a0f5;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    OpenR = 1,
    OpenW,
    Read,
    Write,
    Stat,
    OpenDir,
    ReadDir,
    MkDir,
    Rename,
    Unlink,
    Fsync,
    Chmod,
    Trunc,
    Link,
    ReadLink,
    GetCwd,
    RmDir,
    Close,
    Exec,
}

const KINDS: [Kind; 19] = [
    Kind::OpenR,
    Kind::OpenW,
    Kind::Read,
    Kind::Write,
    Kind::Stat,
    Kind::OpenDir,
    Kind::ReadDir,
    Kind::MkDir,
    Kind::Rename,
    Kind::Unlink,
    Kind::Fsync,
    Kind::Chmod,
    Kind::Trunc,
    Kind::Link,
    Kind::ReadLink,
    Kind::GetCwd,
    Kind::RmDir,
    Kind::Close,
    Kind::Exec,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Action {
    None = 0,
    Err,
    Short,
    KillBefore,
    KillAfter,
    KillPartial,
    Full,
    BadPath,
}

const ACTIONS: [Action; 8] = [
    Action::None,
    Action::Err,
    Action::Short,
    Action::KillBefore,
    Action::KillAfter,
    Action::KillPartial,
    Action::Full,
    Action::BadPath,
];

#[repr(C)]
#[derive(Clone, Copy)]
struct RawRule {
    op: u32,
    action: u32,
    err: i32,
    param: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct RawEntry {
    kind: u8,
    action: u8,
    err: i16,
    ret: i32,
    path: [u8; 248],
}

#[repr(C)]
struct Shm {
    magic: u32,
    nrules: u32,
    rules: [RawRule; 16],
    seed: u64,
    dt_unknown: u32,
    nops: u32,
    nlog: u32,
    escapes: u32,
    full: u32,
    full_on: u32,
    ticks: u32,
    draws: u32,
    lane: u32,
    bad: [u8; 256],
    bad_err: i32,
    root: [u8; 256],
    log: [RawEntry; MAXLOG],
}

struct Map {
    ptr: *mut Shm,
    fd: i32,
    out: File,
}

thread_local! {
    static MAPS: RefCell<Vec<Map>> = const { RefCell::new(Vec::new()) };
}

impl Map {
    fn new() -> Self {
        unsafe {
            // inherited by the tool and whatever it starts
            let fd = libc::memfd_create(c"plan".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, size_of::<Shm>() as i64) == 0, "memfd");
            let ptr =
                libc::mmap(std::ptr::null_mut(), size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(ptr != libc::MAP_FAILED, "mmap");
            let out = libc::memfd_create(c"out".as_ptr(), libc::MFD_CLOEXEC);
            assert!(out >= 0, "memfd");
            Self { ptr: ptr.cast(), fd, out: File::from(OwnedFd::from_raw_fd(out)) }
        }
    }
}

impl Drop for Map {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.ptr.cast(), size_of::<Shm>());
            libc::close(self.fd);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub op: u32,
    pub action: Action,
    pub err: i32,
    pub param: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub rules: Vec<Rule>,
    pub seed: u64,
    pub dt_unknown: bool,
    pub env: Vec<(String, String)>,
    pub no_gofmt: bool,
    /// Tools that run at the same time have different ones, and so different process ids.
    pub lane: u32,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: Kind,
    pub action: Action,
    pub err: i32,
    pub ret: i32,
    pub path: String,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// `None` if a signal ended it.
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub log: Vec<Op>,
    pub nops: u32,
    pub escapes: u32,
    pub output: String,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }

    pub fn killed(&self) -> bool {
        self.signal == Some(libc::SIGKILL)
    }
}

fn put(dst: &mut [u8], s: &str) {
    assert!(s.len() < dst.len(), "path too long: {s}");
    dst.fill(0);
    dst[..s.len()].copy_from_slice(s.as_bytes());
}

fn target_dir() -> PathBuf {
    std::env::current_exe().expect("current exe").parent().and_then(Path::parent).expect("target dir").to_owned()
}

/// The tool asks here before each of its operations, and does nothing until it is told to go on.
struct Gate {
    asks: OwnedFd,
    go: OwnedFd,
}

/// A tool that was started.
pub struct Running {
    map: Option<Map>,
    child: Child,
    gate: Option<Gate>,
    /// It has no further operation to ask for.
    pub over: bool,
}

fn pipe() -> (OwnedFd, OwnedFd) {
    let mut fds = [0; 2];
    unsafe {
        assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) == 0, "pipe");
        (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1]))
    }
}

/// `root` is the scratch directory, `cwd` lies in it. `gated`: the caller decides when each of the
/// tool's operations happens.
pub fn start(tool: &str, args: &[String], root: &Path, cwd: &Path, plan: &Plan, gated: bool) -> Running {
    let target = target_dir();
    let mut m = MAPS.with_borrow_mut(Vec::pop).unwrap_or_else(Map::new);
    let s = unsafe { &mut *m.ptr };
    s.magic = MAGIC;
    s.nrules = plan.rules.len().min(16) as u32;
    for (r, w) in plan.rules.iter().zip(&mut s.rules) {
        *w = RawRule { op: r.op, action: r.action as u32, err: r.err, param: r.param };
    }
    s.seed = plan.seed;
    s.dt_unknown = u32::from(plan.dt_unknown);
    s.lane = plan.lane;
    (s.nops, s.nlog, s.escapes, s.full, s.full_on, s.ticks, s.draws, s.bad_err) = (0, 0, 0, 0, 0, 0, 0, 0);
    s.bad.fill(0);
    put(&mut s.root, root.to_str().expect("utf-8 path"));

    m.out.set_len(0).expect("truncate");
    m.out.seek(SeekFrom::Start(0)).expect("seek");
    let mut c = Command::new(target.join("debug").join(tool));
    c.args(args)
        .current_dir(cwd)
        .env_clear()
        .env("LD_PRELOAD", target.join("shim/shim.so"))
        .env("SIM_FD", m.fd.to_string())
        .env("PATH", if plan.no_gofmt { PathBuf::from("/nonexistent") } else { target.join("shim/bin") })
        .env("NO_COLOR", "1")
        .envs(plan.env.iter().cloned())
        .process_group(0)
        .stdin(Stdio::null())
        .stdout(m.out.try_clone().expect("dup"))
        .stderr(m.out.try_clone().expect("dup"));
    let mut ends = None;
    if gated {
        let (asks, theirs) = pipe();
        let (wait, go) = pipe();
        c.env("SIM_GATE", format!("{} {}", theirs.as_raw_fd(), wait.as_raw_fd()));
        let keep = [theirs.as_raw_fd(), wait.as_raw_fd(), m.fd];
        unsafe {
            c.pre_exec(move || {
                for fd in keep {
                    libc::fcntl(fd, libc::F_SETFD, 0);
                }
                Ok(())
            });
        }
        ends = Some((Gate { asks, go }, theirs, wait));
    }
    let child = c.spawn().expect("start tool");
    let gate = ends.map(|(gate, theirs, wait)| {
        drop((theirs, wait));
        gate
    });
    let mut r = Running { map: Some(m), child, over: gate.is_none(), gate };
    r.await_ask();
    r
}

impl Running {
    /// Waits until the tool wants to do its next operation, or has ended.
    fn await_ask(&mut self) {
        let Some(gate) = &self.gate else { return };
        let mut b = 0u8;
        let n = loop {
            let n = unsafe { libc::read(gate.asks.as_raw_fd(), (&raw mut b).cast(), 1) };
            if n >= 0 || std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
                break n;
            }
        };
        self.over = n != 1;
    }

    /// Lets the tool do one operation; tells what it was.
    pub fn step(&mut self) -> Option<Kind> {
        let gate = self.gate.as_ref()?;
        let s = unsafe { &*self.map.as_ref()?.ptr };
        let at = s.nlog as usize;
        let n = unsafe { libc::write(gate.go.as_raw_fd(), (&raw const b"g"[0]).cast(), 1) };
        if n != 1 {
            self.over = true;
            return None;
        }
        self.await_ask();
        let s = unsafe { &*self.map.as_ref()?.ptr };
        (at < (s.nlog as usize).min(MAXLOG)).then(|| KINDS[(s.log[at].kind as usize).clamp(1, KINDS.len()) - 1])
    }

    pub fn finish(mut self) -> Outcome {
        while !self.over {
            self.step();
        }
        let status = self.child.wait().expect("wait");
        unsafe { libc::kill(-(self.child.id() as i32), libc::SIGKILL) };
        let mut m = self.map.take().expect("plan");
        let s = unsafe { &*m.ptr };
        let mut output = Vec::new();
        m.out.seek(SeekFrom::Start(0)).expect("seek");
        (&m.out).take(20_000).read_to_end(&mut output).expect("read output");
        let log = s.log[..(s.nlog as usize).min(MAXLOG)]
            .iter()
            .map(|e| {
                let n = e.path.iter().position(|b| *b == 0).unwrap_or(e.path.len());
                Op {
                    kind: KINDS[(e.kind as usize).clamp(1, KINDS.len()) - 1],
                    action: ACTIONS[(e.action as usize).min(ACTIONS.len() - 1)],
                    err: i32::from(e.err),
                    ret: e.ret,
                    path: String::from_utf8_lossy(&e.path[..n]).into_owned(),
                }
            })
            .collect();
        let out = Outcome {
            code: status.code(),
            signal: status.signal(),
            log,
            nops: s.nops,
            escapes: s.escapes,
            output: String::from_utf8_lossy(&output).into_owned(),
        };
        MAPS.with_borrow_mut(|l| l.push(m));
        out
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        if let Some(m) = self.map.take() {
            unsafe { libc::kill(-(self.child.id() as i32), libc::SIGKILL) };
            let _ = self.child.wait();
            MAPS.with_borrow_mut(|l| l.push(m));
        }
    }
}
