use serde_json::{json, Value};

use crate::{decode, grid, library, meta, reader, seq, tables};

/// Runs one case.
pub fn answer(case: &Value) -> Value {
    let op = case["op"].as_str().expect("op").to_owned();
    match op.as_str() {
        "sections" => reader::sections(case),
        "submessages" => reader::submessages(case),
        "grouping" => reader::grouping(case),
        "bigfile" => reader::bigfile(case),
        "open" => reader::open(case),
        "iterops" => reader::iterops(case),
        "seqops" => seq::seqops(case),
        "history" => decode::history(case),
        "decode" => decode::decode(case),
        "ij" => grid::ij(case),
        "gridfile" => grid::gridfile(case),
        "gridsparse" => grid::gridsparse(case),
        "flags" => grid::flags(case),
        "gaussian" => grid::gaussian(case),
        "radii" => grid::radii(case),
        "meta" => meta::meta(case),
        "payload" => meta::payload(case),
        "surface" => meta::surface(case),
        "library" => library::library(case),
        "lookup" => tables::lookup(case),
        #[cfg(not(target_arch = "wasm32"))]
        "j2kenc" => crate::j2k::j2kenc(case),
        "pngenc" => decode::pngenc(case),
        "fmt" => meta::fmt(case),
        "named" => meta::named(case),
        _ => json!({ "badop": op }),
    }
}
