//! Deterministic simulation of Mabo's runtime and generated code: values are encoded, carried by a
//! simulated transport that fragments, truncates, corrupts, duplicates and reorders, and decoded.

mod buf;
mod engine;
mod ops;
mod spec;

use wiremodel::Value;

use crate::ops::{Dyn, Ops, ops};

#[allow(non_shorthand_field_patterns)]
include!(concat!(env!("OUT_DIR"), "/glue.rs"));

#[global_allocator]
static METER: buf::Meter = buf::Meter;

fn main() -> std::process::ExitCode {
    simcore::main(|p| engine::find(p))
}
