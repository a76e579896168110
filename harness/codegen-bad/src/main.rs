//! Enumerations for tables the generator must reject: one per line.
#![allow(dead_code)]
include!(concat!(env!("GRIB_CASES"), "/bad.rs"));

fn main() {}
