//! Definitions read by the derive macros (C22): which are accepted, and what is generated from.
#![allow(dead_code, unused_imports, clippy::all)]
include!(concat!(env!("OUT_DIR"), "/lib.rs"));
mod drive;
fn main() { drive::main() }
