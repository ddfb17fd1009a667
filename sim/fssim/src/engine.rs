//! The command line tools under injected file system faults, crashes and changing environments.

use std::{
    collections::{BTreeMap, BTreeSet},
    path::PathBuf,
};

use schemagen::Cfg;
use serde_json::json;
use simcore::{Ctx, Engine, Info, Probe, Source, Violation};

use crate::{
    project::{GENERATORS, Opts, Project, Schema, State, Tool, asked_for, good_text, matches, missing, spoil},
    rustcode,
    tool::{self, Action, Kind, Op, Outcome, Plan, Rule, Running},
    tree::{Node, Tree, differ, first_change},
};

pub const PROPS: &[&str] = &["F01", "F02", "F03", "F04", "F05", "F06", "F07"];

pub fn find(property: &str) -> Option<Box<dyn Engine>> {
    PROPS.contains(&property).then(|| Box::new(Fs { property: property.to_owned() }) as Box<dyn Engine>)
}

struct Fs {
    property: String,
}

type Check = Result<(), Violation>;

/// The scratch directory of one run; the tools see it as the whole writable world.
struct World {
    root: PathBuf,
}

impl World {
    fn new() -> Self {
        let dir = if std::env::var_os("SIM_SCRATCH").is_none() && std::path::Path::new("/dev/shm").is_dir() {
            let p = PathBuf::from(format!("/dev/shm/vsim-fs-{}", std::process::id()));
            if std::fs::create_dir_all(&p).is_ok() { p } else { simcore::drive::scratch_dir("fs") }
        } else {
            simcore::drive::scratch_dir("fs")
        };
        Self { root: dir }
    }

    fn store(&self, t: &Tree) {
        t.store(&self.root);
    }

    fn load(&self) -> Tree {
        Tree::load(&self.root)
    }
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

/// How a tool is called.
#[derive(Clone, Debug)]
struct Call {
    tool: Tool,
    /// 0: from within the project, 1: relative path, 2: absolute path
    style: u64,
    files: Vec<String>,
    out_abs: bool,
    env: Vec<(String, String)>,
    gofmt: Option<&'static str>,
    no_fmt: bool,
    bytes: bool,
}

impl Call {
    fn new(tool: Tool) -> Self {
        Self {
            tool,
            style: 0,
            files: Vec::new(),
            out_abs: false,
            env: Vec::new(),
            gofmt: Some("ok"),
            no_fmt: false,
            bytes: false,
        }
    }

    fn run(&self, w: &World, plan: &Plan) -> Outcome {
        self.start(w, plan, false).finish()
    }

    fn start(&self, w: &World, plan: &Plan, gated: bool) -> Running {
        let root = w.root.to_str().expect("utf-8");
        let cwd = if self.style == 0 { w.root.join("proj") } else { w.root.clone() };
        let dir = match self.style {
            1 => "proj".to_owned(),
            _ => format!("{root}/proj"),
        };
        let out = match (self.out_abs, self.style) {
            (true, _) => format!("{root}/out"),
            (false, 0) => "../out".to_owned(),
            _ => "out".to_owned(),
        };
        let mut args: Vec<String> = Vec::new();
        let mut plan = plan.clone();
        plan.env.extend(self.env.iter().cloned());
        let project = |args: &mut Vec<String>| {
            if self.style > 0 {
                args.extend(["--project-dir".to_owned(), dir.clone()]);
            }
        };
        let bin = match self.tool {
            Tool::Check | Tool::Fmt => {
                args.push(if self.tool == Tool::Check { "check" } else { "fmt" }.into());
                if self.files.is_empty() {
                    project(&mut args);
                } else {
                    args.extend(self.files.iter().map(|f| if self.style == 0 { f.clone() } else { format!("{dir}/{f}") }));
                }
                "mabo"
            }
            Tool::Doc => {
                args.push("doc".into());
                project(&mut args);
                args.push(out);
                "mabo"
            }
            Tool::Go => {
                project(&mut args);
                args.extend(["--out-dir".to_owned(), out]);
                if self.no_fmt {
                    args.push("--no-fmt".into());
                }
                match self.gofmt {
                    Some(m) => plan.env.push(("GOFMT_MODE".into(), m.into())),
                    None => plan.no_gofmt = true,
                }
                "mabo-go"
            }
            Tool::Rust => {
                args.push(if self.style == 0 { ".".into() } else { dir });
                plan.env.push(("OUT_DIR".into(), out));
                if self.bytes {
                    plan.env.push(("BYTES_TYPE".into(), "1".into()));
                }
                "mabobuild"
            }
            Tool::Search => {
                args.push(if self.style == 0 { ".".into() } else { dir });
                "mabosearch"
            }
        };
        tool::start(bin, &args, &w.root, &cwd, &plan, gated)
    }
}

const EIO: i32 = libc::EIO;

fn errors(kind: Kind) -> &'static [i32] {
    match kind {
        Kind::OpenR => &[libc::EACCES, EIO, libc::EMFILE, libc::ENOENT, libc::EINTR],
        Kind::OpenW => &[libc::EACCES, libc::ENOSPC, libc::EROFS, EIO, libc::EINTR, libc::EMFILE],
        Kind::Read => &[EIO, libc::EINTR, libc::ESTALE],
        Kind::Write => &[libc::ENOSPC, EIO, libc::EDQUOT, libc::EINTR],
        Kind::Stat => &[libc::EACCES, EIO],
        Kind::OpenDir => &[libc::EACCES, EIO, libc::EMFILE],
        Kind::ReadDir => &[EIO],
        Kind::MkDir => &[libc::EACCES, libc::ENOSPC, libc::EROFS],
        Kind::Rename => &[EIO, libc::ENOSPC, libc::EACCES],
        Kind::Fsync => &[EIO, libc::ENOSPC],
        Kind::GetCwd => &[libc::ENOENT],
        _ => &[EIO, libc::EACCES],
    }
}

fn err_name(e: i32) -> &'static str {
    match e {
        libc::EACCES => "EACCES",
        libc::EIO => "EIO",
        libc::EMFILE => "EMFILE",
        libc::ENOENT => "ENOENT",
        libc::EINTR => "EINTR",
        libc::ENOSPC => "ENOSPC",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::ESTALE => "ESTALE",
        _ => "error",
    }
}

struct Mix {
    kills: bool,
    errors: bool,
    /// Extra weight for operations that change something.
    writes: u32,
}

/// Faults at operations of a run observed before.
fn draw_faults(src: &mut Source, log: &[Op], mix: &Mix) -> Vec<Rule> {
    let mut rules = Vec::new();
    if log.is_empty() {
        return rules;
    }
    let weights: Vec<u32> = log
        .iter()
        .map(|o| match o.kind {
            Kind::OpenW | Kind::Write | Kind::Rename | Kind::MkDir | Kind::Fsync | Kind::Trunc | Kind::Unlink => mix.writes,
            Kind::Chmod => mix.writes / 2 + 1,
            Kind::OpenR | Kind::Read | Kind::OpenDir => 3,
            Kind::ReadDir => 2,
            _ => 1,
        })
        .collect();
    let n = if mix.kills && !mix.errors { 1 } else { 1 + src.skewed(3) };
    for _ in 0..n {
        let op = src.weighted(&weights);
        let kind = log[op].kind;
        let kill = mix.kills && (!mix.errors || src.chance(1, 2));
        let writing = kind == Kind::Write;
        let (action, err, param) = if kill {
            let size = log[op].ret.max(0) as u64;
            match src.weighted(&[2, 2, if writing { 5 } else { 0 }]) {
                0 => (Action::KillBefore, 0, 0),
                1 => (Action::KillAfter, 0, 0),
                _ => (Action::KillPartial, 0, src.below(size + 1) as u32),
            }
        } else {
            let io = matches!(kind, Kind::Read | Kind::Write);
            match src.weighted(&[6, if io { 4 } else { 0 }, if writing { 3 } else { 0 }, 1]) {
                0 => (Action::Err, *src.pick(errors(kind)), 0),
                1 => (Action::Short, 0, 1 + src.below(40) as u32),
                2 => (Action::Full, 0, src.below(400) as u32),
                _ => (Action::BadPath, *src.pick(&[EIO, libc::EACCES]), 0),
            }
        };
        // one thing at a time
        if rules.iter().all(|r: &Rule| r.op != op as u32) {
            rules.push(Rule { op: op as u32, action, err, param });
        }
    }
    rules
}

fn hits(out: &Outcome) -> Vec<&Op> {
    out.log.iter().filter(|o| o.action != Action::None).collect()
}

/// Whether the expansion of explicit patterns may have been cut short: the glob library counts a
/// name it can't examine as not matching.
fn unexamined(out: &Outcome) -> bool {
    hits(out).iter().any(|o| {
        matches!(o.kind, Kind::Stat | Kind::OpenDir | Kind::ReadDir) && matches!(o.action, Action::Err | Action::BadPath)
    })
}

/// A file operation failed for good (not: was short or interrupted).
fn failed(out: &Outcome) -> bool {
    hits(out).iter().any(|o| matches!(o.action, Action::Err | Action::BadPath | Action::Full) && o.err != libc::EINTR)
}

fn record(ctx: &mut Ctx, what: &str, out: &Outcome) {
    for h in hits(out) {
        let kind = format!("{:?}", h.kind).to_lowercase();
        let f = match h.action {
            Action::Err => format!("{kind} fails with {}", err_name(h.err)),
            Action::Short => format!("short {kind}"),
            Action::KillBefore => format!("killed before {kind}"),
            Action::KillAfter => format!("killed after {kind}"),
            Action::KillPartial => "killed within write".into(),
            Action::Full => "disk full".into(),
            Action::BadPath => "bad block on a path".into(),
            Action::None => continue,
        };
        ctx.fault(&f);
        ctx.ev(format!("  fault: {f} [{}]", h.path));
        ctx.state(format!("{what}/{f}"));
    }
    let verdict = match (out.code, out.signal) {
        (Some(c), _) => format!("exit {c}"),
        (_, s) => format!("signal {s:?}"),
    };
    let mut h = 0;
    for o in &out.log {
        h = simcore::rng::mix(h, format!("{:?}{:?}{}{}", o.kind, o.action, o.err, o.path).as_bytes());
    }
    ctx.ev(format!("{what}: {verdict}, {} operations ({h:016x})", out.nops));
    ctx.state(format!("{h:x}"));
    ctx.nontrivial = true;
    ctx.sim_us += u64::from(out.nops) * 1000;
}

/// What no run may ever do.
fn sane(what: &str, out: &Outcome) -> Check {
    if out.escapes > 0 {
        let e = out.log.iter().find(|o| o.path.starts_with("ESCAPE")).map_or("?", |o| o.path.as_str());
        return Err(Violation::new("writes-elsewhere", format!("{what} tried to change a file outside its directories: {e}")));
    }
    if let Some(s) = out.signal {
        if s != libc::SIGKILL {
            return Err(Violation::new("tool-crashed", format!("{what} ended by signal {s}; output: {}", tail(&out.output))));
        }
    }
    if out.killed() && !out.log.iter().any(|o| matches!(o.action, Action::KillBefore | Action::KillAfter | Action::KillPartial)) {
        return Err(Violation::new("tool-crashed", format!("{what} was killed (out of CPU time?)")));
    }
    Ok(())
}

fn tail(s: &str) -> String {
    let s = s.trim();
    let at = s.char_indices().rev().nth(300).map_or(0, |(i, _)| i);
    s[at..].to_owned()
}

fn plan(src: &mut Source) -> Plan {
    Plan { seed: src.u64() | 1, dt_unknown: src.chance(1, 6), ..Plan::default() }
}

fn random_env(src: &mut Source) -> Vec<(String, String)> {
    let all = [
        ("HOME", "/nonexistent/home"),
        ("LANG", "de_DE.UTF-8"),
        ("LC_ALL", "C"),
        ("TZ", "Asia/Kolkata"),
        ("COLUMNS", "17"),
        ("RUST_LOG", "trace"),
        ("CLICOLOR_FORCE", "1"),
        ("TERM", "xterm-256color"),
        ("SOURCE_DATE_EPOCH", "12345"),
        ("USER", "somebody"),
        ("TMPDIR", "/nonexistent/tmp"),
        ("CARGO_PKG_NAME", "other"),
        ("CARGO_MANIFEST_DIR", "/nonexistent"),
        ("PROFILE", "release"),
        ("HOSTNAME", "h1"),
        ("RUST_BACKTRACE", "0"),
    ];
    let mut v = Vec::new();
    for (k, x) in all {
        if src.chance(1, 3) {
            v.push((k.to_owned(), x.to_owned()));
        }
    }
    v
}

/// Parts of the content that no fsync has made durable are lost, as after a power failure: renames
/// and new names survive, unsynced data does not.
fn lose_unsynced(src: &mut Source, ctx: &mut Ctx, t: &mut Tree, log: &[Op]) -> bool {
    let mut dirty: BTreeSet<String> = BTreeSet::new();
    for o in log {
        if o.err != 0 {
            continue;
        }
        match o.kind {
            Kind::OpenW if o.ret == 0 => {}
            Kind::OpenW | Kind::Write | Kind::Trunc => {
                dirty.insert(o.path.clone());
            }
            Kind::Fsync => {
                dirty.remove(&o.path);
            }
            Kind::Rename => {
                if let Some((a, b)) = o.path.split_once(" -> ") {
                    let d = dirty.remove(a);
                    dirty.remove(b);
                    if d {
                        dirty.insert(b.to_owned());
                    }
                }
            }
            _ => {}
        }
    }
    let mut lost = false;
    for p in dirty {
        let target = match t.0.get(&p) {
            Some(Node::Link(to)) => {
                let dir = p.rsplit_once('/').map_or("", |x| x.0);
                resolve(dir, to)
            }
            _ => p,
        };
        if let Some(Node::File(c, _)) = t.0.get_mut(&target) {
            if c.is_empty() {
                continue;
            }
            let keep = match src.below(4) {
                0 | 1 => 0,
                2 => src.idx(c.len()),
                _ => c.len(),
            };
            if keep < c.len() {
                if src.chance(1, 4) {
                    c[keep..].fill(0);
                } else {
                    c.truncate(keep);
                }
                ctx.fault("unsynced data lost");
                ctx.ev(format!("  power loss: {target} keeps {keep} bytes"));
                lost = true;
            }
        }
    }
    lost
}

fn resolve(dir: &str, to: &str) -> String {
    let mut parts: Vec<&str> = dir.split('/').filter(|x| !x.is_empty()).collect();
    for c in to.split('/') {
        match c {
            ".." => {
                parts.pop();
            }
            "." | "" => {}
            c => parts.push(c),
        }
    }
    parts.join("/")
}

fn accepted(text: &[u8]) -> bool {
    std::str::from_utf8(text).is_ok_and(|t| mabo_parser::Schema::parse(t, None).is_ok())
}

/// Meaning of a schema text; `Err` if it isn't one.
fn meaning(text: &[u8]) -> Result<Vec<String>, String> {
    let t = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    if mabo_parser::Schema::parse(t, None).is_err() {
        return Err("the parser refuses it".into());
    }
    schemaread::read(t).map(|f| f.meaning())
}

fn full_cfg(src: &mut Source) -> Cfg {
    Cfg { crlf: if src.chance(1, 4) { 1 + src.below(2) as u8 } else { 0 }, max_defs: 6, attributes_everywhere: src.chance(1, 4), ..Cfg::default() }
}

fn valid_cfg(src: &mut Source) -> Cfg {
    Cfg {
        resolve: true,
        strict: true,
        imports: false,
        unicode: src.chance(1, 2),
        noise: src.chance(1, 2),
        max_defs: 4,
        fancy_literals: src.chance(1, 2),
        ..Cfg::default()
    }
}

/// Where only names ending like this may be left behind.
fn is_schema(p: &str) -> bool {
    p.ends_with(".mabo")
}

impl Fs {
    fn go(&self, src: &mut Source, ctx: &mut Ctx) -> Check {
        let w = World::new();
        match self.property.as_str() {
            "F01" => fmt_faults(src, ctx, &w),
            "F02" => fmt_meaning(src, ctx, &w),
            "F03" => generate_faults(src, ctx, &w),
            "F04" => generate_pure(src, ctx, &w),
            "F05" => discovery(src, ctx, &w),
            "F07" => together(src, ctx, &w),
            _ => check_verdict(src, ctx, &w),
        }
    }
}

fn fmt_call(src: &mut Source, p: &Project) -> (Call, BTreeSet<String>) {
    let mut c = Call::new(Tool::Fmt);
    c.style = src.below(3);
    if src.chance(3, 4) {
        return (c, p.selected.clone());
    }
    // explicit files and patterns instead of the project
    let mut picked = BTreeSet::new();
    for s in &p.schemas {
        if src.chance(1, 2) {
            picked.insert(s.path.clone());
        }
    }
    c.files = picked.iter().cloned().collect();
    if picked.is_empty() || src.chance(1, 3) {
        let one = src.pick(&p.schemas).path.clone();
        let (dir, file) = one.rsplit_once('/').map_or((String::new(), &*one), |(d, f)| (format!("{d}/"), f));
        let pattern = match src.below(7) {
            0 => format!("{dir}*.mabo"),
            1 => format!("{dir}*"),
            2 => format!("{dir}?{}", &file[1..]),
            3 => format!("{dir}[{}-z]*.mabo", &file[..1]),
            4 => format!("{dir}none*.mabo"),
            5 => "nothing/*.mabo".into(),
            _ => "dirlink/*.mabo".into(),
        };
        picked.extend(p.listed(&pattern));
        let at = src.idx(c.files.len() + 1);
        c.files.insert(at, pattern);
    }
    (c, picked)
}

/// F01
fn fmt_faults(src: &mut Source, ctx: &mut Ctx, w: &World) -> Check {
    let cfg = full_cfg(src);
    let p = Project::new(src, &Opts { max_files: 5, valid: false, broken: true, links: true, modes: true, big: true, cfg });
    ctx.ev(p.describe());
    let (call, chosen) = fmt_call(src, &p);
    ctx.ev(format!("{call:?}"));
    // the run nothing goes wrong in
    w.store(&p.tree);
    let dry = call.run(w, &plan(src));
    record(ctx, "undisturbed fmt", &dry);
    sane("fmt", &dry)?;
    let unreadable = chosen.iter().any(|f| p.state(f) == State::NotUtf8);
    let done = w.load();
    let real: BTreeSet<String> = chosen.iter().map(|f| format!("proj/{}", p.real(f))).collect();
    let judge = |t: &Tree, complete: bool, what: &str| judge_fmt(&p, &real, &done, t, complete, what);
    // what becomes of each of the files when nothing else is there
    for f in &real {
        let (old, new) = (p.tree.text(f).unwrap_or_default(), done.text(f).unwrap_or_default());
        if accepted(old) && (dry.ok() || old != new) {
            let want = formatted_alone(src, ctx, w, old)?;
            if want != new {
                return Err(Violation::new(
                    "not-formatted",
                    format!("{f}: formatted together with other files it is different than alone: {}", first_change(&want, new)),
                ));
            }
        }
    }
    if dry.ok() {
        judge(&done, false, "an undisturbed fmt")?;
        for f in &real {
            let (old, new) = (p.tree.text(f).unwrap_or_default(), done.text(f).unwrap_or_default());
            if accepted(old) {
                let before = schemaread::read(&String::from_utf8_lossy(old)).map(|f| f.defs.len());
                let after = schemaread::read(&String::from_utf8_lossy(new)).map(|f| f.defs.len());
                if !accepted(new) || before != after {
                    return Err(Violation::new(
                        "content-damaged",
                        format!("{f}: formatting without any fault left {before:?} definitions as {after:?}; text now {}", first_change(old, new)),
                    ));
                }
            }
        }
    } else if chosen.is_empty() {
        // Complaining about patterns without any file is fine.
        return judge(&done, false, "fmt of no file");
    } else if !unreadable {
        return Err(Violation::new("fails-without-fault", format!("fmt failed without a fault: {}", tail(&dry.output))));
    } else {
        return fmt_unreadable(ctx, &p, &done);
    }

    let mut tree = p.tree.clone();
    let mut log = dry.log.clone();
    for round in 0..src.range(1, 3) {
        let mix = match src.below(4) {
            0 | 1 => Mix { kills: true, errors: false, writes: 12 },
            2 => Mix { kills: false, errors: true, writes: 10 },
            _ => Mix { kills: true, errors: true, writes: 10 },
        };
        let mut pl = plan(src);
        pl.rules = draw_faults(src, &log, &mix);
        w.store(&tree);
        let out = call.run(w, &pl);
        record(ctx, &format!("fmt {round}"), &out);
        sane("fmt", &out)?;
        let mut after = w.load();
        let what = format!("fmt run {round} ({})", describe_hits(&out));
        judge(&after, out.ok() && (call.files.is_empty() || !unexamined(&out)), &what)?;
        if !out.ok() && !out.killed() && hits(&out).is_empty() {
            return Err(Violation::new("fails-without-fault", format!("{what} failed: {}", tail(&out.output))));
        }
        let write_error = hits(&out).iter().any(|o| {
            matches!(o.kind, Kind::Write | Kind::OpenW | Kind::Rename | Kind::Fsync)
                && matches!(o.action, Action::Err | Action::Full | Action::BadPath)
                && !matches!(o.err, libc::EINTR | 0)
                && is_schema(o.path.rsplit(" -> ").next().unwrap_or(""))
        });
        if write_error && out.ok() {
            // completeness was judged above; an error that didn't matter is fine
            ctx.probe("write error recovered");
        }
        if src.chance(1, 2) && lose_unsynced(src, ctx, &mut after, &out.log) {
            judge(&after, false, &format!("{what}, then power loss"))?;
        }
        tree = after;
        // someone edits a file before the next attempt
        if !out.log.is_empty() {
            log = out.log;
        }
    }
    // once nothing fails any more, the job gets done
    w.store(&tree);
    let last = call.run(w, &plan(src));
    record(ctx, "final fmt", &last);
    sane("fmt", &last)?;
    if !last.ok() {
        return Err(Violation::new("rerun-fails", format!("fmt fails after the faults are gone: {}", tail(&last.output))));
    }
    judge(&w.load(), true, "the final fmt")
}

/// A tool among others, and what it does when it is alone.
struct Actor {
    call: Call,
    /// Files it may format.
    real: BTreeSet<String>,
    /// Exit status and output it has alone, before and after formatting.
    alone: Vec<(bool, BTreeMap<String, Vec<u8>>)>,
    log: Vec<Op>,
}

/// F07
fn together(src: &mut Source, ctx: &mut Ctx, w: &World) -> Check {
    let valid = src.chance(3, 4);
    let cfg = if valid { valid_cfg(src) } else { full_cfg(src) };
    let links = src.chance(1, 3);
    let p = Project::new(src, &Opts { max_files: 4, valid, broken: false, links, modes: true, big: true, cfg });
    ctx.ev(p.describe());
    let mut calls = vec![fmt_call(src, &p)];
    for _ in 0..src.range(1, 2) {
        calls.push(match src.weighted(&[4, 3, if valid { 4 } else { 0 }]) {
            0 => fmt_call(src, &p),
            1 => {
                let mut c = Call::new(Tool::Check);
                c.style = src.below(3);
                (c, BTreeSet::new())
            }
            _ => {
                // one generator: outputs of two would meet in the same directory
                let c = generator_call(src);
                if calls.iter().any(|(o, _)| GENERATORS.contains(&o.tool)) { fmt_call(src, &p) } else { (c, BTreeSet::new()) }
            }
        });
    }
    let order = Plan { seed: src.u64() | 1, ..Plan::default() };
    // each of them alone, on the project as it is and once it is formatted
    let mut actors = Vec::new();
    let mut all = BTreeSet::new();
    let mut format = Call::new(Tool::Fmt);
    format.style = 2;
    w.store(&p.tree);
    let out = format.run(w, &order);
    record(ctx, "fmt alone", &out);
    sane("fmt", &out)?;
    if !out.ok() {
        return Err(Violation::new("fails-without-fault", format!("fmt failed without a fault: {}", tail(&out.output))));
    }
    for (call, _) in calls.iter().filter(|c| c.0.tool == Tool::Fmt) {
        // files that aren't selected by the project
        let out = call.run(w, &order);
        sane("fmt", &out)?;
    }
    let done = w.load();
    for (call, chosen) in calls {
        let real: BTreeSet<String> = chosen.iter().map(|f| format!("proj/{}", p.real(f))).collect();
        all.extend(real.iter().cloned());
        let mut alone = Vec::new();
        let mut log = Vec::new();
        for t in [&p.tree, &done] {
            w.store(t);
            let out = call.run(w, &order);
            record(ctx, &format!("{:?} alone", call.tool), &out);
            sane("a tool", &out)?;
            alone.push((out.ok(), w.load().below("out")));
            if log.is_empty() {
                log = out.log;
            }
        }
        ctx.ev(format!("{call:?}: alone {:?}", alone.iter().map(|a| a.0).collect::<Vec<_>>()));
        actors.push(Actor { call, real, alone, log });
    }
    let before = p.tree.clone();
    w.store(&before);
    let faulty = if src.chance(1, 3) { Some(src.idx(actors.len())) } else { None };
    let mut running = Vec::new();
    for (i, a) in actors.iter().enumerate() {
        let mut pl = Plan { seed: order.seed, lane: i as u32, ..Plan::default() };
        if faulty == Some(i) {
            let mix = if src.chance(1, 2) {
                Mix { kills: true, errors: false, writes: 12 }
            } else {
                Mix { kills: false, errors: true, writes: 8 }
            };
            pl.rules = draw_faults(src, &a.log, &mix);
        }
        running.push(a.call.start(w, &pl, true));
    }
    // the schedule: bursts of one tool, how long is typical for the run
    let burst = *src.pick(&[1, 2, 4, 10, 30]);
    let mut trace = String::new();
    let mut now = 0;
    let mut count = 0;
    let mut switches = 0;
    loop {
        let live: Vec<usize> = (0..running.len()).filter(|i| !running[*i].over).collect();
        if live.is_empty() {
            break;
        }
        if !live.contains(&now) || (live.len() > 1 && src.chance(1, burst)) {
            let next = *src.pick(&live);
            if next != now && count > 0 {
                trace.push_str(&format!(" {now}x{count}"));
                count = 0;
                switches += 1;
            }
            now = next;
        }
        count += 1;
        let kind = running[now].step();
        if matches!(kind, Some(k) if !matches!(k, Kind::OpenR | Kind::Read | Kind::Stat | Kind::OpenDir | Kind::ReadDir | Kind::ReadLink | Kind::GetCwd)) {
            // at every moment
            judge_fmt(&p, &all, &done, &w.load(), false, &format!("a step of {:?} {now}", actors[now].call.tool)).inspect_err(|_| {
                ctx.ev(format!("  schedule:{trace} {now}x{count}"));
            })?;
        }
    }
    ctx.ev(format!("  schedule:{trace} {now}x{count}"));
    ctx.state(format!("schedule{trace}"));
    if switches > 0 {
        ctx.fault("tools interleaved");
    }
    let outs: Vec<Outcome> = running.into_iter().map(Running::finish).collect();
    let after = w.load();
    let mut complete = BTreeSet::new();
    let mut crashed = false;
    for (i, (a, out)) in actors.iter().zip(&outs).enumerate() {
        let tool = a.call.tool;
        record(ctx, &format!("{tool:?} among others"), out);
        sane("a tool among others", out)?;
        crashed |= out.killed() || !hits(out).is_empty();
        let what = format!("{tool:?} {i} at the same time as {:?} ({})", others(&actors, i), describe_hits(out));
        if hits(out).is_empty() {
            if a.alone.iter().all(|x| x.0 != out.ok()) {
                return Err(Violation::new(
                    "disturbed",
                    format!("{what} {}, alone it {}: {}", verdict(out.ok()), verdict(!out.ok()), tail(&out.output)),
                ));
            }
        } else if !out.ok() {
            continue;
        }
        if !out.ok() {
            continue;
        }
        if tool == Tool::Fmt && !(unexamined(out) && !a.call.files.is_empty()) {
            complete.extend(a.real.iter().cloned());
        }
        if GENERATORS.contains(&tool) {
            let have = after.below("out");
            for (f, c) in &have {
                if a.alone.iter().all(|(_, o)| o.get(f) != Some(c)) {
                    let d = a.alone[0].1.get(f).map_or_else(|| "it should not exist".into(), |o| first_change(o, c));
                    return Err(Violation::new("disturbed", format!("{what} wrote {f} differently than alone: {d}")));
                }
            }
            if let Some(f) = a.alone[0].1.keys().find(|f| !have.contains_key(*f) && a.alone[1].1.contains_key(*f)) {
                return Err(Violation::new("disturbed", format!("{what} succeeded, but {f} is missing")));
            }
        }
    }
    judge_fmt(&p, &all, &done, &after, false, "tools at the same time")?;
    // what the tools that succeeded were asked to format is formatted
    judge_fmt(&p, &complete, &done, &keep(&after, &before, &complete), true, "fmt among others")?;
    if !crashed {
        if let Some(f) = after.below("proj").keys().find(|f| !before.0.contains_key(&format!("proj/{f}"))) {
            return Err(Violation::new("left-behind", format!("the tools all ended well, but left {f} behind")));
        }
    }
    // and nothing they left behind is in the way of the next one
    let last = format.run(w, &plan(src));
    record(ctx, "final fmt", &last);
    sane("fmt", &last)?;
    if !last.ok() {
        return Err(Violation::new("rerun-fails", format!("fmt fails after the others have ended: {}", tail(&last.output))));
    }
    let real: BTreeSet<String> = p.selected.iter().map(|f| format!("proj/{}", p.real(f))).chain(all).collect();
    let last = w.load();
    judge_fmt(&p, &real, &done, &last, false, "the final fmt")?;
    let selected: BTreeSet<String> = p.selected.iter().map(|f| format!("proj/{}", p.real(f))).collect();
    judge_fmt(&p, &selected, &done, &keep(&last, &before, &selected), true, "the final fmt")
}

/// `now` for the files in question, `before` for the others.
fn keep(now: &Tree, before: &Tree, files: &BTreeSet<String>) -> Tree {
    let mut t = before.clone();
    for f in files {
        if let Some(n) = now.0.get(f) {
            t.0.insert(f.clone(), n.clone());
        }
    }
    t
}

fn verdict(ok: bool) -> &'static str {
    if ok { "succeeds" } else { "fails" }
}

fn others(actors: &[Actor], except: usize) -> Vec<Tool> {
    actors.iter().enumerate().filter(|(i, _)| *i != except).map(|(_, a)| a.call.tool).collect()
}

fn formatted_alone(src: &mut Source, ctx: &mut Ctx, w: &World, text: &[u8]) -> Result<Vec<u8>, Violation> {
    let mut t = Tree::default();
    t.put("proj/one.mabo", text);
    w.store(&t);
    let mut call = Call::new(Tool::Fmt);
    call.files.push("one.mabo".into());
    let out = call.run(w, &plan(src));
    record(ctx, "fmt of a single file", &out);
    sane("fmt", &out)?;
    if !out.ok() {
        return Err(Violation::new("fails-without-fault", format!("fmt of a single file failed without a fault: {}", tail(&out.output))));
    }
    Ok(w.load().text("proj/one.mabo").unwrap_or_default().to_vec())
}

fn describe_hits(out: &Outcome) -> String {
    let h = hits(out);
    if h.is_empty() {
        return "no fault".into();
    }
    h.iter()
        .map(|o| format!("{:?} {:?} {} on {}", o.action, o.kind, if o.err == 0 { "" } else { err_name(o.err) }, o.path))
        .collect::<Vec<_>>()
        .join(", ")
}

fn judge_fmt(p: &Project, real: &BTreeSet<String>, done: &Tree, t: &Tree, complete: bool, what: &str) -> Check {
    for (path, old) in &p.tree.0 {
        let now = t.0.get(path);
        let Some(now) = now else {
            return Err(Violation::new("file-lost", format!("after {what} {path} is gone")));
        };
        match (old, now) {
            (Node::File(o, om), Node::File(n, nm)) => {
                let formatted = done.text(path).unwrap_or_default();
                if !real.contains(path) {
                    if o != n {
                        return Err(Violation::new(
                            "unselected-changed",
                            format!("after {what} {path}, which was not selected, is changed: {}", first_change(o, n)),
                        ));
                    }
                } else if !accepted(o) {
                    if o != n {
                        return Err(Violation::new(
                            "unparsable-changed",
                            format!("after {what} {path}, which can't be parsed, is changed: {}", first_change(o, n)),
                        ));
                    }
                } else if n.as_slice() == formatted {
                } else if n == o {
                    if complete {
                        return Err(Violation::new(
                            "reports-success",
                            format!("{what} succeeded, but {path} is not formatted"),
                        ));
                    }
                } else {
                    return Err(Violation::new(
                        "file-torn",
                        format!(
                            "after {what} {path} holds neither its old nor its formatted content: {}",
                            first_change(formatted, n)
                        ),
                    ));
                }
                if om != nm {
                    return Err(Violation::new("mode-changed", format!("after {what} {path} has mode {nm:o} instead of {om:o}")));
                }
            }
            (a, b) if a == b => {}
            (a, b) => {
                let kind = |n: &Node| match n {
                    Node::File(..) => "a file",
                    Node::Dir => "a directory",
                    Node::Link(_) => "a symbolic link",
                };
                return Err(Violation::new("file-replaced", format!("after {what} {path} is {} instead of {}", kind(b), kind(a))));
            }
        }
    }
    for path in t.0.keys() {
        if !p.tree.0.contains_key(path) && is_schema(path) {
            return Err(Violation::new("stray-schema", format!("after {what} there is a new schema file {path}")));
        }
    }
    Ok(())
}

fn fmt_unreadable(ctx: &mut Ctx, p: &Project, done: &Tree) -> Check {
    // one file isn't text: the run fails; what it did to the others is judged in the usual way
    ctx.probe("project with an undecodable file");
    for (path, old) in &p.tree.0 {
        if let (Node::File(o, _), Some(Node::File(n, _))) = (old, done.0.get(path)) {
            if o == n {
                continue;
            }
            if !accepted(o) {
                return Err(Violation::new("unparsable-changed", format!("{path}, which can't be parsed, is changed")));
            }
            if !accepted(n) {
                return Err(Violation::new("file-torn", format!("{path} is damaged: {}", first_change(o, n))));
            }
        } else if !matches!(old, Node::Dir | Node::Link(_)) {
            return Err(Violation::new("file-lost", format!("{path} is gone")));
        }
    }
    Ok(())
}

/// F02
fn fmt_meaning(src: &mut Source, ctx: &mut Ctx, w: &World) -> Check {
    let mut tree = Tree::default();
    tree.put("proj/Mabo.toml", "[package]\nname = \"p\"\nfiles = [\"*.mabo\"]\n");
    let n = src.range(1, 6);
    for i in 0..n {
        let cfg = full_cfg(src);
        tree.put(&format!("proj/f{i}.mabo"), good_text(src, &cfg));
    }
    let call = Call::new(Tool::Fmt);
    w.store(&tree);
    let first = call.run(w, &plan(src));
    record(ctx, "fmt", &first);
    sane("fmt", &first)?;
    if !first.ok() {
        return Err(Violation::new("fails-without-fault", format!("fmt failed without a fault: {}", tail(&first.output))));
    }
    let one = w.load();
    for i in 0..n {
        let path = format!("proj/f{i}.mabo");
        let (old, new) = (tree.text(&path).unwrap_or_default(), one.text(&path).unwrap_or_default());
        let Ok(want) = meaning(old) else {
            if accepted(old) {
                return Err(Violation::new("harness", format!("reader refuses {:?}", String::from_utf8_lossy(old))));
            }
            ctx.probe("unparsable input");
            continue;
        };
        ctx.state(format!("{:x}", simcore::rng::mix(0, old)));
        ctx.ev(format!("{path}: {} bytes -> {} bytes", old.len(), new.len()));
        let have = match meaning(new) {
            Ok(h) => h,
            Err(e) => {
                return Err(Violation::new(
                    "formatted-unparsable",
                    format!("the formatted text is no schema: {e}\n--- before\n{}\n--- after\n{}", show(old), show(new)),
                ));
            }
        };
        compare_meaning(ctx, &want, &have, old, new)?;
    }
    // again, possibly after an interrupted attempt
    let mut before = one.clone();
    let interrupted = src.chance(1, 3);
    if interrupted {
        w.store(&tree);
        let mut pl = plan(src);
        pl.rules = draw_faults(src, &first.log, &Mix { kills: true, errors: false, writes: 10 });
        let out = call.run(w, &pl);
        record(ctx, "interrupted fmt", &out);
        sane("fmt", &out)?;
        let half = w.load();
        let again = call.run(w, &plan(src));
        record(ctx, "fmt after interruption", &again);
        sane("fmt", &again)?;
        let healed = w.load();
        for (p, node) in &one.0 {
            if let (Node::File(want, _), Some(Node::File(have, _))) = (node, healed.0.get(p)) {
                // a torn file is F01's matter
                let torn = half.text(p).is_some_and(|h| h != want.as_slice() && Some(h) != tree.text(p));
                if want != have && !torn {
                    return Err(Violation::new(
                        "not-idempotent",
                        format!("{p}: formatted after an interruption it is different: {}", first_change(want, have)),
                    ));
                }
            }
        }
        before = healed;
    }
    w.store(&before);
    let second = call.run(w, &plan(src));
    record(ctx, "second fmt", &second);
    sane("fmt", &second)?;
    let two = w.load();
    for (p, node) in &before.0 {
        if let (Node::File(a, _), Some(Node::File(b, _))) = (node, two.0.get(p)) {
            if a != b {
                return Err(Violation::new(
                    "not-idempotent",
                    format!("{p}: formatting again changes it: {}\n--- first\n{}\n--- second\n{}", first_change(a, b), show(a), show(b)),
                ));
            }
        }
    }
    if second.log.iter().any(|o| matches!(o.kind, Kind::OpenW | Kind::Write | Kind::Rename) && o.err == 0) {
        ctx.probe("second run writes");
    }
    Ok(())
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn compare_meaning(ctx: &mut Ctx, want: &[String], have: &[String], old: &[u8], new: &[u8]) -> Check {
    if want == have {
        return Ok(());
    }
    let split = |l: &str| -> Option<(String, String, String)> {
        let (head, rest) = l.split_once(" comment=")?;
        let (comment, rest) = rest.split_once(" attrs=")?;
        Some((head.to_owned(), comment.to_owned(), rest.to_owned()))
    };
    for i in 0..want.len().max(have.len()) {
        let (a, b) = (want.get(i).map_or("", String::as_str), have.get(i).map_or("", String::as_str));
        if a == b {
            continue;
        }
        if let (Some((h1, c1, r1)), Some((h2, c2, r2))) = (split(a), split(b)) {
            let kind = h1.split(' ').next().unwrap_or("");
            if h1 == h2 && r1 == r2 && kind == "use" && c2 == "[]" && ctx.known("import-comment", "comment above an import is dropped") {
                continue;
            }
            if h1 == h2
                && ["mod", "type", "const", "use"].contains(&kind)
                && (c1 == c2 || kind == "use")
                && r2.starts_with("[]")
                && !r1.starts_with("[]")
            {
                // everything after the attributes must still be the same
                let rest = |r: &str| after_list(r).to_owned();
                if rest(&r1) == rest(&r2)
                    && (c1 == c2 || (c2 == "[]" && ctx.known("import-comment", "comment above an import is dropped")))
                    && ctx.known("attributes-elsewhere", "attributes on modules, aliases, constants and imports are dropped")
                {
                    continue;
                }
            }
        }
        return Err(Violation::new(
            "meaning-changed",
            format!("before: {a}\nafter:  {b}\n--- before\n{}\n--- after\n{}", show(old), show(new)),
        ));
    }
    Ok(())
}

/// What follows the first bracketed list of a Debug print.
fn after_list(s: &str) -> &str {
    let mut depth = 0;
    let mut quoted = false;
    let mut escaped = false;
    for (i, c) in s.char_indices() {
        if quoted {
            match c {
                _ if escaped => escaped = false,
                '\\' => escaped = true,
                '"' => quoted = false,
                _ => {}
            }
            continue;
        }
        match c {
            '"' => quoted = true,
            '[' => depth += 1,
            ']' => {
                depth -= 1;
                if depth == 0 {
                    return &s[i + 1..];
                }
            }
            _ => {}
        }
    }
    ""
}

fn generator_project(src: &mut Source, max_files: u64) -> Project {
    let cfg = valid_cfg(src);
    Project::new(src, &Opts { max_files, valid: true, broken: false, links: false, modes: false, big: true, cfg })
}

fn generator_call(src: &mut Source) -> Call {
    let mut c = Call::new(*src.pick(GENERATORS));
    c.style = src.below(3);
    c.out_abs = src.chance(1, 2);
    c.no_fmt = src.chance(1, 2);
    c.bytes = src.chance(1, 4);
    c
}

/// The reference: an undisturbed run into an empty directory, checked against what must be there.
fn reference(
    src: &mut Source,
    ctx: &mut Ctx,
    w: &World,
    p: &Project,
    call: &Call,
) -> Result<(BTreeMap<String, Vec<u8>>, Outcome), Violation> {
    w.store(&p.tree);
    let out = call.run(w, &plan(src));
    record(ctx, &format!("undisturbed {:?}", call.tool), &out);
    sane("an undisturbed run", &out)?;
    if !out.ok() {
        return Err(Violation::new("fails-without-fault", format!("{:?} failed without a fault: {}", call.tool, tail(&out.output))));
    }
    let files = w.load().below("out");
    if let Some(m) = missing(&p.expected(call.tool), &files) {
        return Err(Violation::new(
            "output-missing",
            format!("{:?} succeeded without any fault, but {m}; there are {:?}", call.tool, files.keys()),
        ));
    }
    if call.tool == Tool::Rust {
        if let Err(e) = rustcode::check(&files) {
            return Err(Violation::new("output-wrong", format!("Rust succeeded without any fault, but {e}")));
        }
    }
    Ok((files, out))
}

fn is_output(p: &str) -> bool {
    p.ends_with(".rs") || p.ends_with(".go") || p.ends_with(".html")
}

/// All files of the reference are there and complete.
fn complete(reference: &BTreeMap<String, Vec<u8>>, have: &BTreeMap<String, Vec<u8>>, left: &BTreeSet<String>, what: &str) -> Check {
    let mut have = have.clone();
    have.retain(|p, _| reference.contains_key(p) || (is_output(p) && !left.contains(p)));
    match differ(reference, &have) {
        None => Ok(()),
        Some(d) => Err(Violation::new("output-wrong", format!("{what} succeeded, but compared to an undisturbed run: {d}"))),
    }
}

fn leftovers(src: &mut Source, ctx: &mut Ctx, w: &World, p: &Project, call: &Call, reference: &BTreeMap<String, Vec<u8>>) -> Tree {
    let mut t = p.tree.clone();
    match src.below(5) {
        0 => {}
        1 => {
            // outputs of an earlier version of the schemas
            let mut old = p.clone();
            for s in p.schemas.clone() {
                if src.chance(1, 2) {
                    let cfg = Cfg { first_name: if src.chance(1, 2) { 900 } else { 0 }, ..valid_cfg(src) };
                    old.set(&s.path, good_text(src, &cfg).into_bytes(), State::Good);
                }
            }
            w.store(&old.tree);
            let out = call.run(w, &plan(src));
            record(ctx, "earlier run", &out);
            for (path, c) in w.load().below("out") {
                t.put(&format!("out/{path}"), c);
            }
        }
        _ => {
            // what a crash or an unclean shutdown left
            for (path, c) in reference {
                let mut c = c.clone();
                match src.below(6) {
                    0 => continue,
                    1 => c.clear(),
                    2 => {
                        let n = src.idx(c.len() + 1);
                        c.truncate(n);
                    }
                    3 => {
                        let n = src.idx(c.len() + 1);
                        c[n..].fill(0);
                    }
                    4 => c.extend_from_slice(b"\nleft over"),
                    _ => {}
                }
                t.put(&format!("out/{path}"), c);
            }
        }
    }
    if src.chance(1, 4) {
        t.put("out/unrelated.txt", "mine");
    }
    t
}

/// F03
fn generate_faults(src: &mut Source, ctx: &mut Ctx, w: &World) -> Check {
    let p = generator_project(src, 4);
    ctx.ev(p.describe());
    let call = generator_call(src);
    ctx.ev(format!("{call:?}"));
    let (want, dry) = reference(src, ctx, w, &p, &call)?;
    if let Err(e) = p.content(call.tool, call.bytes, &want) {
        return Err(Violation::new("output-wrong", format!("{:?} succeeded without any fault, but {e}", call.tool)));
    }
    if src.chance(1, 10) {
        return twins(src, ctx, w, &p, &call, &want);
    }
    let mut tree = leftovers(src, ctx, w, &p, &call, &want);
    let left: BTreeSet<String> = tree.below("out").into_keys().collect();
    let mut log = dry.log;
    for round in 0..src.range(1, 3) {
        let mix = match src.below(4) {
            0 => Mix { kills: true, errors: false, writes: 10 },
            1 | 2 => Mix { kills: false, errors: true, writes: 6 },
            _ => Mix { kills: true, errors: true, writes: 6 },
        };
        let mut pl = plan(src);
        pl.rules = draw_faults(src, &log, &mix);
        let mut c = call.clone();
        if c.tool == Tool::Go && !c.no_fmt && src.chance(1, 4) {
            c.gofmt = *src.pick(&[None, Some("fail"), Some("half"), Some("killed")]);
            ctx.fault("gofmt fails");
            ctx.ev(format!("  gofmt: {:?}", c.gofmt));
        }
        w.store(&tree);
        let out = c.run(w, &pl);
        record(ctx, &format!("{:?} {round}", call.tool), &out);
        sane("a generator", &out)?;
        let mut after = w.load();
        let what = format!("{:?} run {round} ({})", call.tool, describe_hits(&out));
        if out.ok() {
            complete(&want, &after.below("out"), &left, &what)?;
            if c.gofmt != Some("ok") && c.tool == Tool::Go && !c.no_fmt && !want.is_empty() {
                return Err(Violation::new("reports-success", format!("{what} succeeded although gofmt did not ({:?})", c.gofmt)));
            }
        } else if !out.killed() && hits(&out).is_empty() && c.gofmt == Some("ok") {
            return Err(Violation::new("fails-without-fault", format!("{what} failed: {}", tail(&out.output))));
        }
        inputs_untouched(&p.tree, &after, &what)?;
        if out.killed() && src.chance(1, 2) {
            lose_unsynced(src, ctx, &mut after, &out.log);
        }
        tree = after;
        log = out.log;
    }
    w.store(&tree);
    let last = call.run(w, &plan(src));
    record(ctx, "final run", &last);
    sane("a generator", &last)?;
    if !last.ok() {
        return Err(Violation::new(
            "rerun-fails",
            format!("{:?} fails after the faults are gone: {}", call.tool, tail(&last.output)),
        ));
    }
    complete(&want, &w.load().below("out"), &left, &format!("the final {:?}", call.tool))
}

/// Two schemas of the same name can't both have their output: the run may not succeed with one.
fn twins(src: &mut Source, ctx: &mut Ctx, w: &World, p: &Project, call: &Call, want: &BTreeMap<String, Vec<u8>>) -> Check {
    let mut q = p.clone();
    let Some(first) = q.selected.iter().next().cloned() else { return Ok(()) };
    let name = first.rsplit('/').next().unwrap_or(&first).to_owned();
    let cfg = Cfg { first_name: 700, ..valid_cfg(src) };
    for dir in ["schemas", "src", "schemas/sub", "other"] {
        let path = format!("{dir}/{name}");
        if path != first && !q.tree.0.contains_key(&format!("proj/{path}")) {
            q.tree.put(&format!("proj/{path}"), good_text(src, &cfg));
            q.schemas.push(Schema { path, state: State::Good });
            if src.chance(1, 2) {
                break;
            }
        }
    }
    q.patterns = vec!["**/*.mabo".into()];
    q.tree.put("proj/Mabo.toml", format!("[package]\nname = {:?}\nfiles = [\"**/*.mabo\"]\n", q.name));
    q.select();
    let before = leftovers(src, ctx, w, &q, call, want);
    w.store(&before);
    let out = call.run(w, &plan(src));
    ctx.probe("schemas of the same name");
    record(ctx, "schemas of the same name", &out);
    sane("a generator", &out)?;
    if out.ok() {
        return Err(Violation::new(
            "output-missing",
            format!("{:?} succeeded although several schemas of {:?} have the same name and output", call.tool, q.selected),
        ));
    }
    let after = w.load();
    if call.tool != Tool::Doc {
        if let Some(d) = differ(&before.below("out"), &after.below("out")) {
            return Err(Violation::new("output-wrong", format!("{:?} refused schemas of the same name, but changed the output: {d}", call.tool)));
        }
    }
    inputs_untouched(&q.tree, &after, "a failing generator")
}

fn inputs_untouched(before: &Tree, after: &Tree, what: &str) -> Check {
    let files = |t: &Tree| {
        let mut t = t.sub("proj");
        t.0.retain(|_, n| !matches!(n, Node::Dir));
        t
    };
    if files(before) == files(after) {
        return Ok(());
    }
    let d = differ(&before.below("proj"), &after.below("proj")).unwrap_or_else(|| "modes or links differ".into());
    Err(Violation::new("inputs-changed", format!("{what} changed its inputs: {d}")))
}

/// F04
fn generate_pure(src: &mut Source, ctx: &mut Ctx, w: &World) -> Check {
    let p = generator_project(src, 5);
    ctx.ev(p.describe());
    let call = generator_call(src);
    ctx.ev(format!("{call:?}"));
    let (want, dry) = reference(src, ctx, w, &p, &call)?;
    inputs_untouched(&p.tree, &w.load(), "an undisturbed run")?;
    for _ in 0..src.range(1, 2) {
        // another place, time, order, environment, and earlier output
        let mut c = call.clone();
        c.style = src.below(3);
        c.out_abs = src.chance(1, 2);
        c.env = random_env(src);
        let t = leftovers(src, ctx, w, &p, &call, &want);
        let left: BTreeSet<String> = t.below("out").into_keys().collect();
        w.store(&t);
        let out = c.run(w, &plan(src));
        ctx.fault("directory order, hash seed, clock and environment changed");
        record(ctx, "elsewhere", &out);
        sane("a generator", &out)?;
        if !out.ok() {
            return Err(Violation::new(
                "depends-on-environment",
                format!("{:?} fails with another environment, order or earlier output ({:?}): {}", c.tool, c.env, tail(&out.output)),
            ));
        }
        let after = w.load();
        inputs_untouched(&p.tree, &after, "a generator")?;
        complete(&want, &after.below("out"), &left, &format!("{:?} in another environment {:?}", c.tool, c.env)).map_err(
            |v| Violation::new("depends-on-environment", v.detail),
        )?;
    }
    match src.below(4) {
        0 => alone(src, ctx, w, &p, &call, &want)?,
        _ => bad_schema(src, ctx, w, &p, &call, &want, &dry)?,
    }
    Ok(())
}

/// A schema's output doesn't depend on the other schemas of the project.
fn alone(src: &mut Source, ctx: &mut Ctx, w: &World, p: &Project, call: &Call, want: &BTreeMap<String, Vec<u8>>) -> Check {
    let free: Vec<&String> = p.selected.iter().filter(|f| !String::from_utf8_lossy(p.text(f)).contains("use ")).collect();
    if free.is_empty() {
        return Ok(());
    }
    let f = *src.pick(&free);
    let mut q = p.clone();
    q.tree.0.retain(|k, n| {
        !matches!(n, Node::File(..)) || !k.ends_with(".mabo") || k == &format!("proj/{f}") || !k.starts_with("proj/")
    });
    q.select();
    w.store(&q.tree);
    let out = call.run(w, &plan(src));
    record(ctx, "one schema alone", &out);
    sane("a generator", &out)?;
    if !out.ok() {
        return Err(Violation::new("depends-on-others", format!("{f} alone fails: {}", tail(&out.output))));
    }
    let have = w.load().below("out");
    if let Some(m) = missing(&q.expected(call.tool), &have) {
        return Err(Violation::new("depends-on-others", format!("{f} compiled alone: {m}")));
    }
    for path in have.keys().filter(|p| is_output(p)) {
        if want.get(path) != have.get(path) {
            return Err(Violation::new(
                "depends-on-others",
                format!("{path} differs when {f} is compiled alone: {}", first_change(want.get(path).map_or(&[][..], |v| v), &have[path])),
            ));
        }
    }
    Ok(())
}

/// One schema is bad: the run fails and leaves the output alone.
#[expect(clippy::too_many_arguments)]
fn bad_schema(
    src: &mut Source,
    ctx: &mut Ctx,
    w: &World,
    p: &Project,
    call: &Call,
    want: &BTreeMap<String, Vec<u8>>,
    dry: &Outcome,
) -> Check {
    if p.selected.is_empty() {
        return Ok(());
    }
    let sel: Vec<String> = p.selected.iter().cloned().collect();
    let victim = src.pick(&sel).clone();
    let mut q = p.clone();
    let mut pl = plan(src);
    // documentation only needs a schema that can be parsed
    let n = if call.tool == Tool::Doc { 3 } else { 5 };
    let how = match src.below(n) {
        0 => {
            // the file can't be read
            let full = format!("proj/{victim}");
            let ops: Vec<usize> = (0..dry.log.len())
                .filter(|i| dry.log[*i].path == full && matches!(dry.log[*i].kind, Kind::OpenR | Kind::Read) && dry.log[*i].err == 0)
                .collect();
            if ops.is_empty() {
                return Err(Violation::new("never-read", format!("{:?} succeeded without reading {victim}", call.tool)));
            }
            // same order of operations as in the observed run
            let op = *src.pick(&ops);
            let e = *src.pick(&[EIO, libc::EACCES]);
            pl.seed = 0;
            pl.rules.push(Rule { op: op as u32, action: Action::Err, err: e, param: 0 });
            "unreadable"
        }
        k => {
            let (state, how) = [
                (State::NotUtf8, "not UTF-8"),
                (State::Unparsable, "unparsable"),
                (State::Invalid, "invalid"),
                (State::Unresolved, "unresolvable"),
            ][k as usize - 1];
            let (text, kind) = spoil(src, &String::from_utf8_lossy(p.text(&victim)), state, &p.offers(&victim));
            q.set(&victim, text, state);
            ctx.ev(format!("{victim} becomes {how}: {kind}"));
            ctx.state(format!("{:?} {how} {kind}", call.tool));
            how
        }
    };
    let before = leftovers(src, ctx, w, &q, call, want);
    w.store(&before);
    let out = if how == "unreadable" {
        // find the operation again: directory order is part of the plan
        let probe = call.run(w, &pl_without(&pl));
        let full = format!("proj/{victim}");
        let Some(op) = probe
            .log
            .iter()
            .position(|o| o.path == full && matches!(o.kind, Kind::OpenR | Kind::Read) && o.err == 0)
            .map(|first| {
                let reads: Vec<usize> =
                    (first..probe.log.len()).filter(|i| probe.log[*i].path == full && matches!(probe.log[*i].kind, Kind::OpenR | Kind::Read)).collect();
                *src.pick(&reads)
            })
        else {
            return Err(Violation::new("never-read", format!("{:?} succeeded without reading {victim}", call.tool)));
        };
        pl.rules[0].op = op as u32;
        w.store(&before);
        call.run(w, &pl)
    } else {
        call.run(w, &pl)
    };
    ctx.fault(&format!("schema {how}"));
    record(ctx, &format!("{victim} {how}"), &out);
    sane("a generator", &out)?;
    let after = w.load();
    if out.ok() {
        return Err(Violation::new("bad-schema-accepted", format!("{:?} succeeded although {victim} is {how}", call.tool)));
    }
    if call.tool != Tool::Doc {
        let (a, b) = (before.below("out"), after.below("out"));
        if let Some(d) = differ(&a, &b) {
            return Err(Violation::new(
                "output-despite-bad-schema",
                format!("{victim} is {how}, {:?} failed, but the output changed: {d}", call.tool),
            ));
        }
    }
    inputs_untouched(&q.tree, &after, "a failing generator")
}

fn pl_without(p: &Plan) -> Plan {
    Plan { rules: Vec::new(), ..p.clone() }
}

const BAD_TOML: &[&str] = &[
    "",
    "[package]\nname = \"x\"\n",
    "[package]\nfiles = [\"**/*.mabo\"]\n",
    "[package]\nname = 1\nfiles = [\"**/*.mabo\"]\n",
    "[package]\nname = \"x\"\nfiles = \"**/*.mabo\"\n",
    "[package]\nname = \"x\"\nfiles = [\"**/*.mabo\"\n",
    "[package]\nname = \"x\"\nfiles = [\"{a,b\"]\n",
    "[package]\nname = \"x\"\nfiles = [\"[z-a].mabo\"]\n",
    "[package]\nname = \"x\"\nfiles = [\"**/*.mabo\"]\nlicense = \"No Such License Ever\"\n",
    "[project]\nname = \"x\"\nfiles = [\"**/*.mabo\"]\n",
    "[package]\nname = \"x\"\nfiles = [\"**/*.mabo\"]\n[package]\n",
    "name = \"x\"\nfiles = [\"**/*.mabo\"]\n",
];

/// F05, the search for projects below a directory.
fn search(src: &mut Source, ctx: &mut Ctx, w: &World) -> Check {
    // several projects, possibly inside of one another
    let mut places = vec!["", "a/", "b/c/", "a/inner/", "b/c/d/e/", "schemas/"];
    src.shuffle(&mut places);
    places.truncate(src.below(4) as usize);
    let mut tree = Tree::default();
    tree.put("proj/readme.txt", "nothing");
    tree.put("proj/b/stray.mabo", "struct Stray(u8 @1)\n");
    let mut patterns: BTreeMap<String, (String, Vec<String>)> = BTreeMap::new();
    for d in &places {
        let cfg = valid_cfg(src);
        let p = Project::new(src, &Opts { max_files: 3, valid: true, broken: false, links: false, modes: false, big: false, cfg });
        for (path, n) in p.tree.0 {
            if let Some(rest) = path.strip_prefix("proj/") {
                tree.0.insert(format!("proj/{d}{rest}"), n);
            }
        }
        patterns.insert(format!("{d}Mabo.toml"), (p.name, p.patterns));
    }
    for _ in 0..src.below(3) {
        match src.below(5) {
            0 => tree.put("proj/b/Mabo.toml.bak", "not a project"),
            1 => tree.put("proj/a/OldMabo.toml", "not a project"),
            2 => tree.put("proj/schemas/mabo.toml", "not a project"),
            3 => tree.put("proj/b/dir/Mabo.toml/keep", "Mabo.toml is a directory"),
            _ => tree.put("proj/Mabo.toml/", ""),
        };
        tree.0.remove("proj/Mabo.toml/");
    }
    let all: Vec<String> =
        tree.0.iter().filter(|(_, n)| matches!(n, Node::File(..))).filter_map(|(p, _)| p.strip_prefix("proj/").map(str::to_owned)).collect();
    let mut want: BTreeMap<String, (String, BTreeSet<String>)> = BTreeMap::new();
    for (file, (name, globs)) in &patterns {
        let d = file.strip_suffix("Mabo.toml").unwrap_or_default();
        let files = all
            .iter()
            .filter(|p| p.ends_with(".mabo") && p.strip_prefix(d).is_some_and(|rest| globs.iter().any(|g| matches(g, rest))))
            .cloned()
            .collect();
        want.insert(file.clone(), (name.clone(), files));
    }
    ctx.ev(format!("projects {want:?}"));
    let mut call = Call::new(Tool::Search);
    call.style = src.below(3);
    ctx.ev(format!("{call:?}"));
    w.store(&tree);
    let root = format!("{}/proj/", w.root.display());
    let found = |out: &Outcome| -> BTreeMap<String, (String, Vec<String>)> {
        let rel = |p: &str| {
            let p = p.strip_prefix(root.as_str()).or_else(|| p.strip_prefix("proj/")).unwrap_or(p);
            p.trim_start_matches("./").to_owned()
        };
        let mut m: BTreeMap<String, (String, Vec<String>)> = BTreeMap::new();
        let mut last = String::new();
        for l in out.output.lines() {
            if let Some((name, path)) = l.strip_prefix("project ").and_then(|l| l.split_once(' ')) {
                last = rel(path);
                if m.insert(last.clone(), (name.to_owned(), Vec::new())).is_some() {
                    m.insert(format!("{last} twice"), (String::new(), Vec::new()));
                }
            } else if let Some(f) = l.strip_prefix("file ") {
                if let Some((_, files)) = m.get_mut(&last) {
                    files.push(rel(f));
                }
            }
        }
        m
    };
    let right = |out: &Outcome, what: &str, complete: bool| -> Check {
        let have = found(out);
        for (file, (name, files)) in &have {
            let Some((n, f)) = want.get(file) else {
                return Err(Violation::new("schema-not-selected", format!("{what} found the project {file}, which does not exist")));
            };
            let set: BTreeSet<String> = files.iter().cloned().collect();
            if n != name || set != *f || set.len() != files.len() {
                return Err(Violation::new("schema-left-out", format!("{what}: {file} is {name} with {files:?} instead of {n} with {f:?}")));
            }
        }
        if complete && let Some(m) = want.keys().find(|k| !have.contains_key(*k)) {
            return Err(Violation::new("schema-left-out", format!("{what} did not find {m}, only {:?}", have.keys())));
        }
        Ok(())
    };
    let pl = plan(src);
    let dry = call.run(w, &pl);
    record(ctx, "undisturbed search", &dry);
    sane("the search", &dry)?;
    if !dry.ok() {
        return Err(Violation::new("fails-without-fault", format!("the search failed without a fault: {}", tail(&dry.output))));
    }
    right(&dry, "an undisturbed search", true)?;
    if want.is_empty() {
        return Ok(());
    }
    let keys: Vec<&String> = want.keys().collect();
    let victim = (*src.pick(&keys)).clone();
    let mut plan2 = pl.clone();
    let how = match src.below(3) {
        0 => {
            let bad = *src.pick(BAD_TOML);
            let mut t = tree.clone();
            t.put(&format!("proj/{victim}"), bad);
            w.store(&t);
            format!("invalid ({bad:?})")
        }
        1 => {
            let path = format!("proj/{victim}");
            let ops: Vec<usize> =
                (0..dry.log.len()).filter(|i| dry.log[*i].path == path && matches!(dry.log[*i].kind, Kind::OpenR | Kind::Read)).collect();
            let op = *src.pick(&ops) as u32;
            plan2.rules.push(Rule { op, action: Action::Err, err: *src.pick(&[EIO, libc::EACCES]), param: 0 });
            "unreadable".to_owned()
        }
        _ => {
            // a directory that can't be read may be passed over, but nothing else
            plan2.rules = draw_faults(src, &dry.log, &Mix { kills: false, errors: true, writes: 1 });
            let out = call.run(w, &plan2);
            record(ctx, "faulted search", &out);
            sane("the search", &out)?;
            if out.ok() {
                let walk = hits(&out).iter().any(|o| matches!(o.kind, Kind::Stat | Kind::OpenDir | Kind::ReadDir));
                right(&out, &format!("a search ({})", describe_hits(&out)), !walk)?;
            } else if hits(&out).is_empty() {
                return Err(Violation::new("fails-without-fault", format!("the search failed: {}", tail(&out.output))));
            }
            return Ok(());
        }
    };
    let out = call.run(w, &plan2);
    ctx.fault("one of several project files invalid or unreadable");
    record(ctx, &format!("{victim} {how}"), &out);
    sane("the search", &out)?;
    if out.ok() {
        return Err(Violation::new("bad-project-accepted", format!("the search succeeded although {victim} is {how}")));
    }
    Ok(())
}

/// F05
fn discovery(src: &mut Source, ctx: &mut Ctx, w: &World) -> Check {
    if src.chance(1, 5) {
        return search(src, ctx, w);
    }
    let tool = *src.pick(&[Tool::Check, Tool::Check, Tool::Fmt, Tool::Rust, Tool::Go, Tool::Doc]);
    let single = matches!(tool, Tool::Check | Tool::Fmt);
    let cfg = valid_cfg(src);
    let mut p = Project::new(src, &Opts { max_files: 6, valid: true, broken: false, links: single, modes: false, big: false, cfg });
    if src.chance(1, 8) {
        // a directory with the name of a schema file
        p.tree.put("proj/schemas/folder.mabo/readme.txt", "not a schema");
    }
    ctx.ev(p.describe());
    let mut call = Call::new(tool);
    call.style = src.below(3);
    call.out_abs = src.chance(1, 2);
    ctx.ev(format!("{call:?}"));
    w.store(&p.tree);
    let pl = plan(src);
    let dry = call.run(w, &pl);
    record(ctx, "undisturbed run", &dry);
    sane("the tool", &dry)?;
    let has_loop = false;
    if !dry.ok() && !has_loop {
        return Err(Violation::new("fails-without-fault", format!("{tool:?} failed without a fault: {}", tail(&dry.output))));
    }
    let done = w.load();
    worked_on(&p, tool, &dry, &done, None, "an undisturbed run")?;

    match src.below(3) {
        0 => {
            // the project file
            let mut t = p.tree.clone();
            let mut plan2 = plan(src);
            let how = match src.below(3) {
                0 => {
                    t.0.remove("proj/Mabo.toml");
                    "missing".to_owned()
                }
                1 => {
                    let bad = *src.pick(BAD_TOML);
                    let mut bytes = bad.as_bytes().to_vec();
                    if src.chance(1, 8) {
                        bytes = p.tree.text("proj/Mabo.toml").unwrap_or_default().to_vec();
                        bytes.push(b'#');
                        bytes.push(0xff);
                    }
                    t.put("proj/Mabo.toml", bytes);
                    format!("invalid ({bad:?})")
                }
                _ => {
                    let ops: Vec<usize> = (0..dry.log.len())
                        .filter(|i| dry.log[*i].path == "proj/Mabo.toml" && matches!(dry.log[*i].kind, Kind::OpenR | Kind::Read))
                        .collect();
                    let op = *src.pick(&ops) as u32;
                    plan2 = pl.clone();
                    plan2.rules.push(Rule { op, action: Action::Err, err: *src.pick(&[EIO, libc::EACCES]), param: 0 });
                    "unreadable".to_owned()
                }
            };
            w.store(&t);
            let out = call.run(w, &plan2);
            ctx.fault("project file missing, invalid or unreadable");
            record(ctx, &format!("project file {how}"), &out);
            sane("the tool", &out)?;
            if out.ok() {
                return Err(Violation::new("bad-project-accepted", format!("{tool:?} succeeded although Mabo.toml is {how}")));
            }
            let after = w.load();
            if after.below("proj") != t.below("proj") || !after.below("out").is_empty() {
                return Err(Violation::new("bad-project-processed", format!("{tool:?} changed files although Mabo.toml is {how}")));
            }
        }
        _ => {
            // faults on the way
            let mut plan2 = pl.clone();
            plan2.rules = draw_faults(src, &dry.log, &Mix { kills: false, errors: true, writes: 1 });
            w.store(&p.tree);
            let out = call.run(w, &plan2);
            record(ctx, "faulted run", &out);
            sane("the tool", &out)?;
            let after = w.load();
            let what = format!("{tool:?} ({})", describe_hits(&out));
            if out.ok() {
                worked_on(&p, tool, &out, &after, Some(&done), &what)?;
                let lost = hits(&out).into_iter().find(|o| {
                    matches!(o.action, Action::Err | Action::BadPath)
                        && !matches!(o.err, libc::EINTR | 0)
                        && match o.kind {
                            Kind::OpenDir | Kind::ReadDir => o.path.starts_with("proj"),
                            Kind::OpenR | Kind::Read => {
                                o.path == "proj/Mabo.toml"
                                    || o.path.strip_prefix("proj/").is_some_and(|f| p.selected.contains(f))
                            }
                            _ => false,
                        }
                });
                if let Some(o) = lost {
                    return Err(Violation::new(
                        "error-ignored",
                        format!("{tool:?} succeeded although {:?} on {} failed with {}", o.kind, o.path, err_name(o.err)),
                    ));
                }
            } else if hits(&out).is_empty() {
                return Err(Violation::new("fails-without-fault", format!("{what} failed: {}", tail(&out.output))));
            }
        }
    }
    Ok(())
}

/// A successful run worked on exactly the selected files.
fn worked_on(p: &Project, tool: Tool, out: &Outcome, after: &Tree, undisturbed: Option<&Tree>, what: &str) -> Check {
    let read: BTreeSet<&str> = out
        .log
        .iter()
        .filter(|o| o.kind == Kind::Read && o.err == 0 && is_schema(&o.path))
        .filter_map(|o| o.path.strip_prefix("proj/"))
        .collect();
    if let Some(f) = p.selected.iter().find(|f| !read.contains(f.as_str())) {
        return Err(Violation::new(
            "schema-left-out",
            format!("{what} succeeded without reading {f}, which {:?} selects; it read {read:?}", p.patterns),
        ));
    }
    if let Some(f) = read.iter().find(|f| !p.selected.contains(**f)) {
        return Err(Violation::new("schema-not-selected", format!("{what} read {f}, which {:?} does not select", p.patterns)));
    }
    if let Some(o) = out.log.iter().find(|o| is_schema(&o.path) && o.kind == Kind::Read && !o.path.starts_with("proj/")) {
        return Err(Violation::new("schema-not-selected", format!("{what} read {}, which is no part of the project", o.path)));
    }
    // whole files
    for f in &p.selected {
        let mut size = p.text(f).len() as i64;
        if tool == Tool::Fmt {
            // reached by a second path it may be formatted already
            size = size.min(after.text(&format!("proj/{}", p.real(f))).unwrap_or_default().len() as i64);
        }
        let got: i64 =
            out.log.iter().filter(|o| o.kind == Kind::Read && o.err == 0 && o.path == format!("proj/{f}")).map(|o| i64::from(o.ret)).sum();
        if got < size {
            return Err(Violation::new("schema-cut", format!("{what} succeeded with {got} of the {size} bytes of {f}")));
        }
    }
    match tool {
        Tool::Rust | Tool::Go | Tool::Doc => {
            let have = after.below("out");
            let want = p.expected(tool);
            if let Some(m) = missing(&want, &have) {
                return Err(Violation::new("schema-left-out", format!("{what} succeeded, but {m}")));
            }
            for path in have.keys() {
                if is_output(path) && !asked_for(&want, path) {
                    return Err(Violation::new("schema-not-selected", format!("{what} wrote {path}, which no selected schema asks for")));
                }
            }
        }
        Tool::Fmt => {
            if let Some(u) = undisturbed {
                if let Some(d) = differ(&u.below("proj"), &after.below("proj")) {
                    return Err(Violation::new("schema-left-out", format!("{what} succeeded, but: {d}")));
                }
            }
        }
        Tool::Check | Tool::Search => {
            if let Some(d) = differ(&p.tree.below("proj"), &after.below("proj")) {
                return Err(Violation::new("inputs-changed", format!("{what}: {d}")));
            }
        }
    }
    Ok(())
}

/// F06
fn check_verdict(src: &mut Source, ctx: &mut Ctx, w: &World) -> Check {
    let cfg = valid_cfg(src);
    let mut p = Project::new(src, &Opts { max_files: 5, valid: true, broken: false, links: false, modes: false, big: true, cfg });
    let mut call = Call::new(Tool::Check);
    call.style = src.below(3);
    call.env = random_env(src);
    let mut chosen = p.selected.clone();
    if src.chance(1, 4) {
        // explicit files: one set, without Mabo.toml; only files that need no other
        let alone: Vec<String> = p
            .schemas
            .iter()
            .map(|s| s.path.clone())
            .filter(|f| !String::from_utf8_lossy(p.text(f)).contains("use "))
            .collect();
        if !alone.is_empty() {
            chosen = alone.into_iter().collect();
            call.files = chosen.iter().cloned().collect();
        }
    }
    let mut bad: Vec<String> = Vec::new();
    // mostly none or a single one is bad, as its defect must be found on its own
    let only = match src.below(4) {
        0 => Some(p.schemas.len()),
        1 | 2 => Some(src.idx(p.schemas.len())),
        _ => None,
    };
    for (i, s) in p.schemas.clone().into_iter().enumerate() {
        if only.map_or_else(|| src.chance(1, 4), |o| o == i) {
            let st = [State::NotUtf8, State::Unparsable, State::Invalid, State::Unresolved][src.weighted(&[1, 1, 4, 4])];
            let text = String::from_utf8_lossy(p.text(&s.path)).into_owned();
            let (t, kind) = spoil(src, &text, st, &p.offers(&s.path));
            p.set(&s.path, t, st);
            if chosen.contains(&s.path) {
                bad.push(format!("{} is {st:?} ({kind})", s.path));
                ctx.state(format!("{st:?} {kind}"));
                ctx.fault(&format!("schema {st:?}").to_lowercase());
            }
        }
    }
    ctx.ev(p.describe());
    ctx.ev(format!("{call:?} bad: {bad:?}"));
    w.store(&p.tree);
    let pl = plan(src);
    let dry = call.run(w, &pl);
    record(ctx, "check", &dry);
    sane("check", &dry)?;
    let verdict = |out: &Outcome, what: &str| -> Check {
        let examined = call.files.is_empty() || !unexamined(out);
        if out.ok() && !bad.is_empty() && examined {
            return Err(Violation::new("bad-schema-passes", format!("{what} succeeded although {}", bad.join(", "))));
        }
        for f in &chosen {
            let got: i64 = out
                .log
                .iter()
                .filter(|o| o.kind == Kind::Read && o.err == 0 && o.path == format!("proj/{f}"))
                .map(|o| i64::from(o.ret))
                .sum();
            let examined = call.files.is_empty() || !unexamined(out);
            let opened = out.log.iter().any(|o| o.kind == Kind::OpenR && o.path == format!("proj/{f}"));
            if out.ok() && (examined || opened) && got < p.text(f).len() as i64 {
                return Err(Violation::new("not-read", format!("{what} succeeded with {got} bytes of {f} read")));
            }
        }
        if let Some(d) = differ(&p.tree.below("proj"), &w.load().below("proj")) {
            return Err(Violation::new("inputs-changed", format!("{what}: {d}")));
        }
        Ok(())
    };
    verdict(&dry, "check")?;
    if !dry.ok() && bad.is_empty() {
        return Err(Violation::new("good-schemas-rejected", format!("check failed: {}", tail(&dry.output))));
    }
    for round in 0..src.below(3) {
        let mut plan2 = pl.clone();
        plan2.rules = draw_faults(src, &dry.log, &Mix { kills: false, errors: true, writes: 1 });
        let out = call.run(w, &plan2);
        record(ctx, &format!("check {round}"), &out);
        sane("check", &out)?;
        let what = format!("check run {round} ({})", describe_hits(&out));
        verdict(&out, &what)?;
        if !out.ok() && bad.is_empty() && !failed(&out) && hits(&out).iter().all(|o| o.action == Action::None) {
            return Err(Violation::new("good-schemas-rejected", format!("{what} failed: {}", tail(&out.output))));
        }
    }
    Ok(())
}

impl Engine for Fs {
    fn run(&self, src: &mut Source, ctx: &mut Ctx) -> Check {
        self.go(src, ctx)
    }

    fn info(&self) -> Info {
        Info {
            rule: rule(&self.property).to_owned(),
            components: json!({
                "real": [
                    "the executables mabo and mabo-go from their own crate roots, and mabo_build::Compiler as a build script calls it",
                    "mabo-parser, mabo-compiler, mabo-doc, mabo-go, mabo-build, mabo-project, glob, ignore, globset, clap, std::fs",
                    "the kernel's file system (tmpfs) for every call that is not made to fail",
                ],
                "stub": [
                    "libc's file calls, getrandom, clock_gettime and getpid of the tools (a preloaded shim passes them on, logs them, or makes them fail)",
                    "gofmt (a small program that rewrites .go files in place, or fails)",
                ],
            }),
            assumptions: vec![
                "Durability model: names, renames and file sizes survive a power loss, file data survives only after fsync.".into(),
                "Hidden files and .gitignore/.ignore rules, which the project walk honours, are not generated.".into(),
                "Every run of a tool is one process without threads of its own (gofmt its only child); tools run at the same time in F07 only, and edits by hand happen between runs only.".into(),
            ],
        }
    }

    fn probes(&self) -> Vec<Probe> {
        match self.property.as_str() {
            "F02" => vec![
                Probe {
                    key: "import-comment",
                    run: Box::new(|| loses("/// About it.\nuse other::Thing;\n", "About it", "comment above an import is dropped")),
                },
                Probe {
                    key: "attributes-elsewhere",
                    run: Box::new(|| {
                        loses(
                            "#[deprecated]\nmod a {\n    struct B\n}\n",
                            "deprecated",
                            "attributes on modules, aliases, constants and imports are dropped",
                        )
                    }),
                },
            ],
            _ => Vec::new(),
        }
    }

    fn budget(&self, tier: &str) -> (u64, u64) {
        match (tier, self.property.as_str()) {
            ("thorough", _) => (400_000, 900),
            (_, "F06") => (25_000, 60),
            (_, "F07") => (12_000, 60),
            _ => (12_000, 45),
        }
    }

    fn fresh_thread(&self) -> bool {
        false
    }

    fn hang_secs(&self) -> u64 {
        120
    }
}

fn rule(p: &str) -> &'static str {
    match p {
        "F01" => "one run: a generated project, an undisturbed mabo fmt for reference, 1-3 runs with faults or a crash at drawn file operations (partly followed by loss of unsynced data), a final undisturbed run",
        "F02" => "one run: 1-6 generated schema files formatted by mabo fmt, re-read by an independent reader, formatted again (partly after an interrupted attempt)",
        "F03" => "one run: a generated project, an undisturbed run of a generator for reference, leftovers in the output directory, 1-3 runs with faults or crashes, a final undisturbed run",
        "F04" => "one run: a generated project, a reference run, re-runs with other directory order, hash seed, clock, environment, paths and leftovers, and a run with one bad schema or one schema alone",
        "F05" => "one run: a generated project layout and file patterns, a run whose read files and outputs are compared with a model of the selection, and a run with a bad project file or with faults during discovery and reading",
        "F07" => "one run: a generated project, 2-3 tools (at least one mabo fmt) run alone for reference, then all at once with every file operation scheduled by the simulator, partly with faults or a kill in one of them, and a final undisturbed mabo fmt",
        _ => "one run: a generated project with some bad schemas, mabo check undisturbed and with faults; its verdict is compared with how the schemas were made",
    }
}


/// Formats one schema and looks whether a part of it is gone.
fn loses(text: &str, part: &str, what: &str) -> Option<String> {
    let w = World::new();
    let mut t = Tree::default();
    t.put("proj/Mabo.toml", "[package]\nname = \"p\"\nfiles = [\"*.mabo\"]\n");
    t.put("proj/a.mabo", text);
    w.store(&t);
    let out = Call::new(Tool::Fmt).run(&w, &Plan { seed: 1, ..Plan::default() });
    let after = w.load();
    let now = String::from_utf8_lossy(after.text("proj/a.mabo").unwrap_or_default()).into_owned();
    (out.ok() && !now.contains(part)).then(|| what.to_owned())
}
