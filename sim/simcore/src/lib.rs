//! Deterministic-simulation harness shared by the simulators: choice source, run context, batch
//! driver in worker processes, minimiser, replay files and evidence.

pub mod drive;
pub mod rng;
pub mod source;

use std::collections::{BTreeMap, BTreeSet};

pub use drive::{Become, Engine, Info, Probe, main, self_command};
pub use source::{Mirror, Source};

/// A broken property.
#[derive(Clone, Debug)]
pub struct Violation {
    /// Kind of failure; minimisation keeps this constant.
    pub class: String,
    pub detail: String,
    /// Identifies a *specific* input or site, to be matched against the known-findings file.
    pub key: Option<String>,
}

impl Violation {
    pub fn new(class: impl Into<String>, detail: impl Into<String>) -> Self {
        Self { class: class.into(), detail: detail.into(), key: None }
    }

    pub fn keyed(class: impl Into<String>, key: impl Into<String>, detail: impl Into<String>) -> Self {
        Self { class: class.into(), detail: detail.into(), key: Some(key.into()) }
    }
}

#[macro_export]
macro_rules! violate {
    ($class:expr, $($arg:tt)*) => {
        return Err($crate::Violation::new($class, format!($($arg)*)))
    };
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond { $crate::violate!($class, $($arg)*) }
    };
}

/// Everything one run records. Recording never draws from the source and never reads a clock.
pub struct Ctx {
    pub property: String,
    pub trace: Option<Vec<String>>,
    pub hash: u64,
    pub events: u64,
    pub sim_us: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    /// Coarse signature of what the run did: the measure of distinct interleavings/states.
    pub states: BTreeSet<u64>,
    pub nontrivial: bool,
    pub known: BTreeMap<String, String>,
    pub known_keys: BTreeSet<String>,
    /// Trace lines are also written to this file descriptor as they happen.
    pub trace_fd: Option<i32>,
}

impl Ctx {
    pub fn new(property: &str, keep_trace: bool, known_keys: BTreeSet<String>) -> Self {
        Self {
            property: property.to_owned(),
            trace: keep_trace.then(Vec::new),
            hash: 0xcbf2_9ce4_8422_2325,
            events: 0,
            sim_us: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            states: BTreeSet::new(),
            nontrivial: false,
            known: BTreeMap::new(),
            known_keys,
            trace_fd: None,
        }
    }

    /// What a run in a child process recorded.
    #[must_use]
    pub fn export(&self) -> serde_json::Value {
        serde_json::json!({
            "trace": self.trace, "hash": self.hash, "events": self.events, "sim_us": self.sim_us,
            "faults": self.faults, "probes": self.probes, "states": self.states,
            "nontrivial": self.nontrivial, "known": self.known,
        })
    }

    /// Takes over what a run in a child process recorded.
    pub fn absorb(&mut self, v: &serde_json::Value) {
        let num = |name: &str| v[name].as_u64().unwrap_or(0);
        self.hash = num("hash");
        self.events = num("events");
        self.sim_us = num("sim_us");
        self.nontrivial = v["nontrivial"].as_bool().unwrap_or(false);
        if self.trace.is_some() {
            self.trace =
                Some(v["trace"].as_array().into_iter().flatten().filter_map(|l| l.as_str().map(str::to_owned)).collect());
        }
        for (map, name) in [(&mut self.faults, "faults"), (&mut self.probes, "probes")] {
            for (k, c) in v[name].as_object().into_iter().flatten() {
                map.insert(k.clone(), c.as_u64().unwrap_or(0));
            }
        }
        self.states.extend(v["states"].as_array().into_iter().flatten().filter_map(serde_json::Value::as_u64));
        for (k, d) in v["known"].as_object().into_iter().flatten() {
            self.known.insert(k.clone(), d.as_str().unwrap_or("").to_owned());
        }
    }

    pub fn ev(&mut self, line: impl AsRef<str>) {
        let line = line.as_ref();
        self.hash = rng::mix(self.hash, line.as_bytes());
        self.events += 1;
        if let Some(t) = &mut self.trace {
            if let Some(fd) = self.trace_fd {
                let l = format!("{}\n", line.replace('\n', "\\n"));
                unsafe { libc::write(fd, l.as_ptr().cast(), l.len()) };
            }
            if t.len() < 4000 {
                let mut l = line.to_owned();
                if l.len() > 2000 {
                    let mut cut = 2000;
                    while !l.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    l.truncate(cut);
                    l.push('…');
                }
                t.push(l);
            }
        }
    }

    pub fn fault(&mut self, kind: &str) {
        *self.faults.entry(kind.to_owned()).or_default() += 1;
        self.hash = rng::mix(self.hash, kind.as_bytes());
    }

    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_owned()).or_default() += 1;
    }

    pub fn state(&mut self, sig: impl AsRef<[u8]>) {
        self.states.insert(rng::mix(0x1234_5678_9abc_def0, sig.as_ref()));
    }

    /// A recorded defect of the tree under test: counted, reported once, and not an alarm.
    /// Returns false if the key is not in the known-findings file (then it is a violation).
    pub fn known(&mut self, key: &str, detail: impl Into<String>) -> bool {
        if self.known_keys.contains(key) {
            self.known.entry(key.to_owned()).or_insert_with(|| detail.into());
            true
        } else {
            false
        }
    }
}
