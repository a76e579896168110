use grib::codetables::*;
use serde_json::{json, Value};

use crate::util::{guard, panicked};

/// Looks codes up in a table of the library.
pub fn lookup(case: &Value) -> Value {
    let d = case["disc"].as_u64().unwrap_or(0) as u8;
    let c = case["cat"].as_u64().unwrap_or(0) as u8;
    let t: Box<dyn Lookup> = match case["table"].as_str().unwrap() {
        "C00" => Box::new(CommonCodeTable00),
        "C11" => Box::new(CommonCodeTable11),
        "0.0" => Box::new(CodeTable0_0),
        "1.1" => Box::new(CodeTable1_1),
        "1.2" => Box::new(CodeTable1_2),
        "1.3" => Box::new(CodeTable1_3),
        "1.4" => Box::new(CodeTable1_4),
        "3.1" => Box::new(CodeTable3_1),
        "4.0" => Box::new(CodeTable4_0),
        "4.1" => Box::new(CodeTable4_1::new(d)),
        "4.2" => Box::new(CodeTable4_2::new(d, c)),
        "4.3" => Box::new(CodeTable4_3),
        "4.4" => Box::new(CodeTable4_4),
        "4.5" => Box::new(CodeTable4_5),
        _ => Box::new(CodeTable5_0),
    };
    let out: Vec<Value> = case["codes"]
        .as_array()
        .unwrap()
        .iter()
        .map(|k| {
            let k = k.as_u64().unwrap() as usize;
            guard(|| {
                let r = t.lookup(k);
                json!([r.description(), r.to_string()])
            })
            .unwrap_or_else(panicked)
        })
        .collect();
    json!({ "out": out })
}
