//! Batch driver: seeds -> runs in worker processes -> minimised replay files and evidence.

use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
    fs,
    io::Write,
    panic::{self, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Child, Command, ExitCode, Stdio},
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant},
};

use serde_json::{Value, json};

use crate::{
    Ctx, Source, Violation,
    rng::{mix, splitmix},
};

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Hash-map seeds (and every other consumer of kernel randomness in this process) are decided by
/// the run's source: std's `RandomState` draws its keys from `getrandom` once per thread.
///
/// # Safety
///
/// Same contract as libc's `getrandom`.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let mut seed = HASH_SEED.try_with(Cell::get).unwrap_or(0);
    if seed == 0 && unsafe { !libc::getenv(c"SIM_ARGS".as_ptr()).is_null() } {
        // the whole process is simulated: nothing in it may see the kernel's randomness
        seed = 0x5eed;
    }
    if seed == 0 {
        return unsafe { libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize };
    }
    let mut s = seed;
    for i in 0..len {
        unsafe { *buf.add(i) = (splitmix(&mut s) >> 32) as u8 };
    }
    let _ = HASH_SEED.try_with(|c| c.set(s | 1));
    len as isize
}

pub fn set_hash_seed(seed: u64) {
    HASH_SEED.with(|c| c.set(seed));
}

/// Unwinding with this payload leaves the driver: the (forked) process becomes the system under
/// test.
pub struct Become;

/// A command that runs this simulator again. With `SIM_ARGS` set, the executable is the program
/// under test started as usual, and the simulator's own arguments travel in the environment.
pub fn self_command(args: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("current exe"));
    if std::env::var_os("SIM_ARGS").is_some() {
        c.args(std::env::args_os().skip(1));
        c.env("SIM_ARGS", args.join("\n"));
    } else {
        c.args(args);
    }
    c
}

fn own_args() -> Vec<String> {
    match std::env::var("SIM_ARGS") {
        Ok(a) => a.split('\n').filter(|a| !a.is_empty()).map(str::to_owned).collect(),
        Err(_) => std::env::args().skip(1).collect(),
    }
}

pub struct Info {
    pub rule: String,
    pub components: Value,
    pub assumptions: Vec<String>,
}

/// Reproduces one recorded finding; `Some(detail)` while the defect is present.
pub struct Probe {
    pub key: &'static str,
    pub run: Box<dyn Fn() -> Option<String> + Sync>,
}

pub trait Engine: Sync {
    fn run(&self, src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation>;
    fn info(&self) -> Info;
    /// (number of runs, wall-clock cap in seconds)
    fn budget(&self, tier: &str) -> (u64, u64);
    fn probes(&self) -> Vec<Probe> {
        Vec::new()
    }
    fn fresh_thread(&self) -> bool {
        true
    }
    /// Seconds without progress after which a run counts as hung.
    fn hang_secs(&self) -> u64 {
        30
    }
    fn shrink_secs(&self) -> u64 {
        60
    }
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn known_keys(property: &str) -> BTreeSet<String> {
    let text = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let mut parts = l.split_whitespace();
            (parts.next()? == property).then_some(())?;
            Some(parts.next()?.strip_prefix("key=")?.to_owned())
        })
        .collect()
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_owned())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_owned());
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("SIM_DEBUG").is_some() {
            eprintln!("panic: {msg}{at}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC_MSG.with(|c| *c.borrow_mut() = Some(format!("{msg}{at}")));
    }));
}

pub fn take_panic() -> String {
    PANIC_MSG.with(|c| c.borrow_mut().take()).unwrap_or_else(|| "panic".to_owned())
}

/// One complete simulated execution.
pub fn execute(engine: &dyn Engine, src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
    let body = |src: &mut Source, ctx: &mut Ctx| {
        // the first draw of every run seeds all hash maps created during it
        let seed = src.below(1 << 32);
        set_hash_seed(seed * 2 + 1);
        let r = panic::catch_unwind(AssertUnwindSafe(|| engine.run(src, ctx)));
        let r = match r {
            Ok(r) => r,
            Err(p) if p.is::<Become>() => panic::resume_unwind(p),
            Err(_) => Err(Violation::new("panic", take_panic())),
        };
        set_hash_seed(0);
        r
    };
    let r = if engine.fresh_thread() {
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || body(src, ctx))
                .expect("spawn run thread")
                .join()
                .unwrap_or_else(|_| Err(Violation::new("panic", "run thread died")))
        })
    } else {
        body(src, ctx)
    };
    if let Err(v) = &r {
        ctx.ev(format!("VIOLATION {}", v.class));
        if let Some(k) = &v.key {
            if ctx.known(k, v.detail.clone()) {
                return Ok(());
            }
        }
    }
    r
}

fn run_seed(seed: u64, property: &str, index: u64) -> u64 {
    let mut h = mix(seed ^ 0x5bd1_e995, property.as_bytes());
    h = mix(h, &index.to_le_bytes());
    h
}

/// Words shared between the driver and its workers: [0] lowest violating index + 1 (0 = none),
/// [1 + k] current index + 1 of worker k.
struct Shared {
    ptr: *mut u64,
}

unsafe impl Sync for Shared {}

impl Shared {
    fn open(path: &Path, words: usize) -> Self {
        use std::os::fd::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shared file");
        f.set_len((words * 8) as u64).expect("size shared file");
        let ptr = unsafe {
            libc::mmap(std::ptr::null_mut(), words * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(ptr != libc::MAP_FAILED, "mmap");
        Self { ptr: ptr.cast() }
    }

    fn word(&self, i: usize) -> &AtomicU64 {
        unsafe { AtomicU64::from_ptr(self.ptr.add(i)) }
    }
}

struct Args {
    property: String,
    tier: String,
    seed: u64,
    runs: Option<u64>,
    secs: Option<u64>,
    worker: Option<(u64, u64)>,
    scratch: Option<PathBuf>,
    replay: Option<PathBuf>,
    shrink: Option<PathBuf>,
    attempt: Option<PathBuf>,
    one: Option<u64>,
    hashes: bool,
    workers: Option<u64>,
}

fn parse_args() -> Args {
    let mut it = own_args().into_iter();
    let mut a = Args {
        property: String::new(),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        runs: None,
        secs: None,
        worker: None,
        scratch: None,
        replay: None,
        shrink: None,
        attempt: None,
        one: None,
        hashes: false,
        workers: None,
    };
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("argument value");
        match x.as_str() {
            "--tier" => a.tier = val(),
            "--seed" => a.seed = val().parse().expect("seed"),
            "--runs" => a.runs = Some(val().parse().expect("runs")),
            "--secs" => a.secs = Some(val().parse().expect("secs")),
            "--worker" => {
                let v = val();
                let (k, n) = v.split_once('/').expect("k/n");
                a.worker = Some((k.parse().unwrap(), n.parse().unwrap()));
            }
            "--scratch" => a.scratch = Some(val().into()),
            "--replay" => a.replay = Some(val().into()),
            "--shrink" => a.shrink = Some(val().into()),
            "--attempt" => a.attempt = Some(val().into()),
            "--one" => a.one = Some(val().parse().expect("index")),
            "--hashes" => a.hashes = true,
            "--workers" => a.workers = Some(val().parse().expect("workers")),
            _ if a.property.is_empty() => a.property = x,
            _ => panic!("unknown argument {x}"),
        }
    }
    if a.tier != "thorough" {
        a.tier = "quick".into();
    }
    a
}

/// Entry point of every simulator binary.
pub fn main(find: impl Fn(&str) -> Option<Box<dyn Engine>>) -> ExitCode {
    let args = parse_args();
    if args.property == "--list" || args.property.is_empty() {
        eprintln!("usage: <sim> PROPERTY [--tier T] [--seed N] [--runs N] [--secs N] [--replay F] [--one I]");
        return ExitCode::from(2);
    }
    let Some(engine) = find(&args.property) else {
        eprintln!("unknown property {}", args.property);
        return ExitCode::from(2);
    };
    let engine = engine.as_ref();
    install_hook();
    let _ = fs::create_dir_all(verif_dir().join("replays"));

    if let Some((k, n)) = args.worker {
        return worker(engine, &args, k, n);
    }
    if let Some(f) = &args.attempt {
        let choices = read_choices(f);
        let mut ctx = Ctx::new(&args.property, false, known_keys(&args.property));
        return match execute(engine, &mut Source::replay(choices), &mut ctx) {
            Ok(()) => ExitCode::SUCCESS,
            Err(v) => {
                println!("{}", v.class);
                ExitCode::from(1)
            }
        };
    }
    if let Some(f) = &args.shrink {
        return shrink_in_child(engine, &args, f);
    }
    if let Some(f) = &args.replay {
        return replay(engine, &args, f);
    }
    if let Some(i) = args.one {
        let mut ctx = Ctx::new(&args.property, true, known_keys(&args.property));
        let mut src = Source::random(run_seed(args.seed, &args.property, i));
        let r = execute(engine, &mut src, &mut ctx);
        for l in ctx.trace.unwrap_or_default() {
            println!("{l}");
        }
        println!("draws={} events={} hash={:016x} result={r:?}", src.log.len(), ctx.events, ctx.hash);
        return ExitCode::SUCCESS;
    }
    batch(engine, &args)
}

fn read_choices(f: &Path) -> Vec<u64> {
    let v: Value = serde_json::from_str(&fs::read_to_string(f).expect("read replay file")).expect("replay JSON");
    v["choices"].as_array().expect("choices").iter().map(|c| c.as_u64().expect("choice")).collect()
}

fn worker(engine: &dyn Engine, args: &Args, k: u64, n: u64) -> ExitCode {
    let scratch = args.scratch.clone().expect("scratch");
    let shared = Shared::open(&scratch.join("shared"), 1 + n as usize);
    let (runs, secs) = (args.runs.unwrap(), args.secs.unwrap());
    let deadline = Instant::now() + Duration::from_secs(secs);
    let keys = known_keys(&args.property);
    let mut evaluations = 0u64;
    let mut nontrivial = BTreeSet::new();
    let mut states = BTreeSet::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let (mut events, mut sim_us, mut draws) = (0u64, 0u64, 0u64);
    let (mut rechecked, mut mismatched) = (0u64, 0u64);
    let mut samples = Vec::new();
    let mut violation = Value::Null;
    let mut hashes = Vec::new();
    let recheck = if args.tier == "thorough" { 64 } else { 12 };

    let mut i = k;
    while i < runs {
        let stop = shared.word(0).load(Ordering::Relaxed);
        if Instant::now() >= deadline || i + 1 > stop {
            break;
        }
        shared.word(1 + k as usize).store(i + 1, Ordering::Relaxed);
        let seed = run_seed(args.seed, &args.property, i);
        let sample = samples.len() < 1 && k < 3;
        let mut ctx = Ctx::new(&args.property, sample, keys.clone());
        let mut src = Source::random(seed);
        let r = execute(engine, &mut src, &mut ctx);
        evaluations += 1;
        events += ctx.events;
        sim_us += ctx.sim_us;
        draws += src.log.len() as u64;
        for (key, v) in std::mem::take(&mut ctx.faults) {
            *faults.entry(key).or_default() += v;
        }
        for (key, v) in std::mem::take(&mut ctx.probes) {
            *probes.entry(key).or_default() += v;
        }
        known.extend(std::mem::take(&mut ctx.known));
        if args.hashes {
            hashes.push(json!([i, format!("{:016x}", ctx.hash)]));
        }
        if ctx.nontrivial {
            nontrivial.insert(ctx.hash);
            if states.len() < 2_000_000 {
                states.extend(std::mem::take(&mut ctx.states));
            }
            if sample {
                let t = ctx.trace.take().unwrap_or_default();
                let shown: Vec<_> = t.iter().take(40).cloned().collect();
                samples.push(json!({"run": i, "run_seed": format!("{seed:016x}"), "events": ctx.events, "draws": src.log.len(), "trace_head": shown}));
            }
        }
        if let Err(v) = r {
            violation = json!({"index": i, "class": v.class, "detail": v.detail, "key": v.key, "choices": src.log});
            shared.word(0).fetch_min(i + 1, Ordering::Relaxed);
            break;
        }
        if rechecked < recheck {
            // the same seed must give the same event log, and so must its recorded choices
            rechecked += 1;
            let mut again = Ctx::new(&args.property, false, keys.clone());
            let _ = execute(engine, &mut Source::random(seed), &mut again);
            let mut third = Ctx::new(&args.property, false, keys.clone());
            let _ = execute(engine, &mut Source::replay(src.log.clone()), &mut third);
            if again.hash != ctx.hash || third.hash != ctx.hash {
                mismatched += 1;
            }
        }
        i += n;
    }
    shared.word(1 + k as usize).store(u64::MAX, Ordering::Relaxed);
    let out = json!({
        "evaluations": evaluations, "events": events, "sim_us": sim_us, "draws": draws,
        "nontrivial": nontrivial.into_iter().collect::<Vec<_>>(),
        "states": states.into_iter().collect::<Vec<_>>(),
        "faults": faults, "probes": probes, "known": known,
        "rechecked": rechecked, "mismatched": mismatched,
        "samples": samples, "violation": violation, "hashes": hashes,
    });
    fs::write(scratch.join(format!("out.{k}")), serde_json::to_vec(&out).unwrap()).expect("write worker output");
    ExitCode::SUCCESS
}

struct Scratch(PathBuf, u32);

impl Drop for Scratch {
    fn drop(&mut self) {
        if self.1 != std::process::id() {
            return;
        }
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// A fresh private scratch directory.
pub fn scratch_dir(tag: &str) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var_os("SIM_SCRATCH").map_or_else(|| PathBuf::from("/tmp"), PathBuf::from);
    let p = base.join(format!("vsim-{tag}-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    fs::create_dir_all(&p).expect("create scratch dir");
    p
}

fn batch(engine: &dyn Engine, args: &Args) -> ExitCode {
    let start = Instant::now();
    let prop = &args.property;
    let (runs, secs) = engine.budget(&args.tier);
    let (runs, secs) = (args.runs.unwrap_or(runs), args.secs.unwrap_or(secs));
    let n = args.workers.unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get() as u64).min(16));
    let scratch = Scratch(scratch_dir(prop), std::process::id());
    let keys = known_keys(prop);
    println!("{prop}: VERIF_SEED={} tier={} runs={runs} cap={secs}s workers={n}", args.seed, args.tier);

    // recorded findings: reproduce each on the tree under test
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let mut bad_probe: Option<(String, String)> = None;
    for p in engine.probes() {
        set_hash_seed(77);
        let r = panic::catch_unwind(AssertUnwindSafe(|| (p.run)())).unwrap_or_else(|_| Some(take_panic()));
        set_hash_seed(0);
        if let Some(detail) = r {
            if keys.contains(p.key) {
                known.insert(p.key.to_owned(), detail);
            } else if bad_probe.is_none() {
                bad_probe = Some((p.key.to_owned(), detail));
            }
        }
    }

    let shared = Shared::open(&scratch.0.join("shared"), 1 + n as usize);
    shared.word(0).store(u64::MAX, Ordering::Relaxed);
    let mut children: Vec<Option<Child>> = (0..n)
        .map(|k| {
            let mut a: Vec<String> = vec![prop.clone()];
            for (name, value) in [
                ("--tier", args.tier.clone()),
                ("--seed", args.seed.to_string()),
                ("--runs", runs.to_string()),
                ("--secs", secs.to_string()),
                ("--worker", format!("{k}/{n}")),
                ("--scratch", scratch.0.display().to_string()),
            ] {
                a.push(name.to_owned());
                a.push(value);
            }
            if args.hashes {
                a.push("--hashes".to_owned());
            }
            let mut c = self_command(&a);
            c.stdout(Stdio::null());
            if std::env::var_os("SIM_DEBUG").is_none() {
                c.stderr(Stdio::null());
            }
            Some(c.spawn().expect("spawn worker"))
        })
        .collect();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); n as usize];
    let mut died: Vec<(u64, String)> = Vec::new();
    while children.iter().any(Option::is_some) {
        std::thread::sleep(Duration::from_millis(5));
        for k in 0..n as usize {
            let Some(c) = &mut children[k] else { continue };
            if let Some(st) = c.try_wait().expect("wait") {
                if !st.success() {
                    died.push((shared.word(1 + k).load(Ordering::Relaxed).wrapping_sub(1), format!("worker process ended abnormally: {st}")));
                    let i = died.last().unwrap().0;
                    shared.word(0).fetch_min(i.wrapping_add(1).max(1), Ordering::Relaxed);
                }
                children[k] = None;
                continue;
            }
            let cur = shared.word(1 + k).load(Ordering::Relaxed);
            if cur != last[k].0 {
                last[k] = (cur, Instant::now());
            } else if last[k].1.elapsed() > Duration::from_secs(engine.hang_secs()) && cur != u64::MAX {
                let _ = c.kill();
                let _ = c.wait();
                died.push((cur.wrapping_sub(1), "hang: run made no progress".to_owned()));
                shared.word(0).fetch_min(cur, Ordering::Relaxed);
                children[k] = None;
            }
        }
    }

    // merge
    let mut evaluations = 0;
    let (mut events, mut sim_us, mut draws, mut rechecked, mut mismatched) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut nontrivial = BTreeSet::new();
    let mut states = BTreeSet::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut violations: Vec<(u64, Violation, Vec<u64>)> = Vec::new();
    let mut hashes: BTreeMap<u64, String> = BTreeMap::new();
    for k in 0..n {
        let Ok(data) = fs::read(scratch.0.join(format!("out.{k}"))) else { continue };
        let v: Value = serde_json::from_slice(&data).expect("worker JSON");
        let num = |name: &str| v[name].as_u64().unwrap_or(0);
        evaluations += num("evaluations");
        events += num("events");
        sim_us += num("sim_us");
        draws += num("draws");
        rechecked += num("rechecked");
        mismatched += num("mismatched");
        for (set, name) in [(&mut nontrivial, "nontrivial"), (&mut states, "states")] {
            set.extend(v[name].as_array().into_iter().flatten().filter_map(Value::as_u64));
        }
        for (map, name) in [(&mut faults, "faults"), (&mut probes, "probes")] {
            for (key, c) in v[name].as_object().into_iter().flatten() {
                *map.entry(key.clone()).or_default() += c.as_u64().unwrap_or(0);
            }
        }
        for (key, d) in v["known"].as_object().into_iter().flatten() {
            known.entry(key.clone()).or_insert_with(|| d.as_str().unwrap_or("").to_owned());
        }
        samples.extend(v["samples"].as_array().into_iter().flatten().cloned());
        for h in v["hashes"].as_array().into_iter().flatten() {
            hashes.insert(h[0].as_u64().unwrap(), h[1].as_str().unwrap().to_owned());
        }
        let x = &v["violation"];
        if !x.is_null() {
            violations.push((
                x["index"].as_u64().unwrap_or(0),
                Violation {
                    class: x["class"].as_str().unwrap_or("").to_owned(),
                    detail: x["detail"].as_str().unwrap_or("").to_owned(),
                    key: x["key"].as_str().map(str::to_owned),
                },
                x["choices"].as_array().into_iter().flatten().filter_map(Value::as_u64).collect(),
            ));
        }
    }
    for (i, why) in died {
        violations.push((i, Violation::new("process-died", why), Vec::new()));
    }
    violations.sort_by_key(|v| v.0);
    if args.hashes {
        for (i, h) in &hashes {
            println!("HASH {i} {h}");
        }
    }
    let run_wall = start.elapsed().as_secs_f64();

    let nviol = violations.len() + usize::from(bad_probe.is_some());
    let mut replay_path = None;
    if let Some((key, detail)) = &bad_probe {
        let path = verif_dir().join("replays").join(format!("{prop}-probe-{key}.json"));
        let _ = fs::write(&path, serde_json::to_vec_pretty(&json!({"property": prop, "probe": key, "detail": detail})).unwrap());
        println!("violation: {detail}");
        replay_path = Some(path);
    }
    if replay_path.is_none() {
        if let Some((i, v, choices)) = violations.into_iter().next() {
            replay_path = Some(minimise(engine, args, i, &v, choices, &scratch.0));
        }
    }

    let info = engine.info();
    let wall = start.elapsed().as_secs_f64();
    let per_hour = if run_wall > 0.0 { (evaluations as f64 / run_wall * 3600.0) as u64 } else { 0 };
    let evidence = json!({
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial.len(),
            "rule": info.rule,
            "samples": samples,
            "simulated_runs_and_seeds_per_hour": per_hour,
            "simulated_events": events,
            "simulated_time_s": sim_us as f64 / 1e6,
            "scheduler_and_fault_draws": draws,
            "faults_injected": faults,
            "rare_condition_probes": probes,
            "distinct_states": states.len(),
            "distinct_states_measure": "distinct state/interleaving signatures recorded by the runs (see rule)",
            "determinism_recheck": {"runs_executed_three_times": rechecked, "diverged": mismatched},
            "components": info.components,
            "known_findings_reproduced": known,
        },
        "assumptions": info.assumptions,
        "wall_s": wall,
        "violations": nviol,
    });
    let ev_dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&ev_dir);
    fs::write(ev_dir.join(format!("{prop}.json")), serde_json::to_vec_pretty(&evidence).unwrap()).expect("write evidence");

    for (key, detail) in &known {
        println!("KNOWN-FINDING: property={prop} {key}: {}", detail.replace('\n', " "));
    }
    println!(
        "{prop}: {evaluations} runs ({} distinct non-trivial, {} states), {events} events, faults {:?}, {:.1}s, determinism {}/{} ok",
        nontrivial.len(), states.len(), faults, wall, rechecked - mismatched, rechecked
    );
    if std::env::var_os("SIM_PROBES").is_some() {
        println!("probes {probes:#?}");
    }
    if let Some(p) = replay_path {
        println!("VIOLATION property={prop} replay={}", p.display());
        return ExitCode::from(1);
    }
    if evaluations == 0 {
        eprintln!("no run completed");
        return ExitCode::from(2);
    }
    ExitCode::SUCCESS
}

fn write_replay(path: &Path, args: &Args, index: u64, v: &Violation, choices: &[u64], trace: &[String]) {
    let doc = json!({
        "property": args.property, "verif_seed": args.seed, "run": index,
        "run_seed": format!("{:016x}", run_seed(args.seed, &args.property, index)),
        "class": v.class, "detail": v.detail, "key": v.key,
        "schedule_and_fault_trace": trace, "choices": choices,
        "schema_seed": std::env::var("WIRE_SCHEMA_SEED").unwrap_or_else(|_| "1".into()),
        "replay_with": format!("/verif/run.sh {} --replay {}", args.property, path.display()),
    });
    let tmp = path.with_extension("tmp");
    if fs::write(&tmp, serde_json::to_vec_pretty(&doc).unwrap()).is_ok() {
        let _ = fs::rename(&tmp, path);
    }
}

fn minimise(engine: &dyn Engine, args: &Args, index: u64, v: &Violation, choices: Vec<u64>, scratch: &Path) -> PathBuf {
    let path = verif_dir().join("replays").join(format!("{}-{}-{}.json", args.property, args.seed, index));
    let mut choices = choices;
    if choices.is_empty() {
        // the worker died: regenerate nothing, the run seed alone decides; record its draws lazily
        choices = vec![];
    }
    write_replay(&path, args, index, v, &choices, &[]);
    println!("violation in run {index}: {}: {}", v.class, v.detail);
    if v.class == "process-died" {
        // replay by run seed: the file names it
        return path;
    }
    let input = scratch.join("shrink.json");
    let _ = fs::copy(&path, &input);
    let limit = Duration::from_secs(engine.shrink_secs() + 20);
    let shown = path.display().to_string();
    let strings = |l: &[&str]| l.iter().map(|x| (*x).to_owned()).collect::<Vec<String>>();
    let mut c = self_command(&strings(&[&args.property, "--tier", &args.tier, "--seed", &args.seed.to_string(), "--shrink", &shown]));
    c.stdout(Stdio::null());
    if std::env::var_os("SIM_DEBUG").is_none() {
        c.stderr(Stdio::null());
    }
    if let Ok(mut child) = c.spawn() {
        let t = Instant::now();
        loop {
            match child.try_wait() {
                Ok(Some(_)) | Err(_) => break,
                Ok(None) if t.elapsed() > limit => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(10)),
            }
        }
    }
    // the minimised file must fail the same way in a fresh process
    let status = self_command(&strings(&[&args.property, "--replay", &shown])).stdout(Stdio::null()).stderr(Stdio::null()).status();
    if !matches!(status, Ok(s) if s.code() == Some(1)) {
        println!("note: minimised replay did not reproduce in a fresh process; keeping the original schedule");
        let _ = fs::copy(&input, &path);
    }
    if let Ok(text) = fs::read_to_string(&path) {
        if let Ok(doc) = serde_json::from_str::<Value>(&text) {
            println!("minimised: {} draws, {}", doc["choices"].as_array().map_or(0, Vec::len), doc["detail"].as_str().unwrap_or(""));
            for l in doc["schedule_and_fault_trace"].as_array().into_iter().flatten().take(60) {
                println!("  | {}", l.as_str().unwrap_or(""));
            }
        }
    }
    path
}

fn attempt(engine: &dyn Engine, args: &Args, choices: &[u64], keep: bool) -> (Result<(), Violation>, Vec<u64>, Vec<String>) {
    let mut ctx = Ctx::new(&args.property, keep, known_keys(&args.property));
    let mut src = Source::replay(choices.to_vec());
    let r = execute(engine, &mut src, &mut ctx);
    (r, src.log, ctx.trace.unwrap_or_default())
}

fn shrink_in_child(engine: &dyn Engine, args: &Args, path: &Path) -> ExitCode {
    let doc: Value = serde_json::from_str(&fs::read_to_string(path).expect("read")).expect("JSON");
    let class = doc["class"].as_str().unwrap_or("").to_owned();
    let index = doc["run"].as_u64().unwrap_or(0);
    let mut best = read_choices(path);
    let deadline = Instant::now() + Duration::from_secs(engine.shrink_secs());
    let ok = |cand: &[u64]| -> Option<Vec<u64>> {
        if Instant::now() > deadline {
            return None;
        }
        let (r, log, _) = attempt(engine, args, cand, false);
        matches!(r, Err(v) if v.class == class).then_some(log)
    };
    let Some(log) = ok(&best) else { return ExitCode::from(2) };
    best = log;
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // drop blocks
        let mut size = (best.len() / 2).next_power_of_two().min(256);
        while size >= 1 {
            let mut at = 0;
            while at < best.len() {
                let mut cand = best.clone();
                cand.drain(at..(at + size).min(best.len()));
                match ok(&cand) {
                    Some(log) if better(&log, &best) => best = log,
                    _ => at += size,
                }
                if Instant::now() > deadline {
                    break;
                }
            }
            size /= 2;
        }
        // zero blocks, then single draws, then halve
        for size in [32usize, 8, 2, 1] {
            let mut at = 0;
            while at < best.len() {
                let end = (at + size).min(best.len());
                if best[at..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[at..end].fill(0);
                    if let Some(log) = ok(&cand) {
                        if better(&log, &best) {
                            best = log;
                        }
                    }
                }
                at += size;
            }
        }
        let mut at = 0;
        while at < best.len() {
            let (mut lo, mut hi) = (0u64, best[at]);
            while lo < hi && Instant::now() < deadline {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[at] = mid;
                match ok(&cand) {
                    Some(log) if better(&log, &best) => {
                        best = log;
                        if at >= best.len() {
                            break;
                        }
                        hi = best[at].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            at += 1;
        }
        if best == before || Instant::now() > deadline {
            break;
        }
        let (r, _, trace) = attempt(engine, args, &best, true);
        if let Err(v) = r {
            write_replay(path, args, index, &v, &best, &trace);
        }
    }
    let (r, _, trace) = attempt(engine, args, &best, true);
    if let Err(v) = r {
        write_replay(path, args, index, &v, &best, &trace);
    }
    ExitCode::SUCCESS
}

/// A run that kills or hangs its process is replayed, by its seed, in a child process.
fn replay_dead(engine: &dyn Engine, args: &Args, doc: &Value, path: &Path) -> ExitCode {
    let seed = doc["verif_seed"].as_u64().unwrap_or(1).to_string();
    let index = doc["run"].as_u64().unwrap_or(0).to_string();
    let a: Vec<String> =
        [&args.property, "--tier", &args.tier, "--seed", &seed, "--one", &index].iter().map(|x| (*x).to_owned()).collect();
    let mut child = self_command(&a)
        .stdout(Stdio::null())
        .spawn()
        .expect("spawn replay");
    let t = Instant::now();
    let verdict = loop {
        match child.try_wait().expect("wait") {
            Some(st) if st.success() => break None,
            Some(st) => break Some(format!("process ended abnormally: {st}")),
            None if t.elapsed() > Duration::from_secs(engine.hang_secs()) => {
                let _ = child.kill();
                let _ = child.wait();
                break Some("hang: run made no progress".to_owned());
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    match verdict {
        Some(v) => {
            println!("{v}");
            println!("VIOLATION property={} replay={}", args.property, path.display());
            ExitCode::from(1)
        }
        None => {
            println!("not reproduced");
            ExitCode::SUCCESS
        }
    }
}

fn replay(engine: &dyn Engine, args: &Args, path: &Path) -> ExitCode {
    let doc: Value = serde_json::from_str(&fs::read_to_string(path).expect("read replay file")).expect("replay JSON");
    if let Some(key) = doc["probe"].as_str() {
        for p in engine.probes() {
            if p.key == key {
                set_hash_seed(77);
                if let Some(d) = (p.run)() {
                    println!("{d}");
                    println!("VIOLATION property={} replay={}", args.property, path.display());
                    return ExitCode::from(1);
                }
            }
        }
        println!("not reproduced");
        return ExitCode::SUCCESS;
    }
    if doc["class"] == "process-died" {
        return replay_dead(engine, args, &doc, path);
    }
    let mut ctx = Ctx::new(&args.property, true, known_keys(&args.property));
    let choices = read_choices(path);
    let mut src = Source::replay(choices);
    println!("replaying {} ({} draws recorded)", path.display(), doc["choices"].as_array().map_or(0, Vec::len));
    let _ = std::io::stdout().flush();
    let r = execute(engine, &mut src, &mut ctx);
    for l in ctx.trace.unwrap_or_default() {
        println!("  | {l}");
    }
    match r {
        Ok(()) => {
            println!("not reproduced");
            ExitCode::SUCCESS
        }
        Err(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} replay={}", args.property, path.display());
            ExitCode::from(1)
        }
    }
}
