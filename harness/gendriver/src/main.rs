//! The same as the driver, for the generator of code tables alone: it does not
//! need the library, whose build runs the generator.
use std::{
    io::{BufRead, Write},
    panic::AssertUnwindSafe,
};

use serde_json::{json, Value};

fn guard<F: FnOnce() -> T, T>(f: F) -> Result<T, String> {
    std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| "panic".to_string())
}

fn panicked(m: String) -> Value {
    json!({"k": "panic", "m": m})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("input");
        if line.is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case");
        let out = match case["op"].as_str().expect("op") {
            "cct" => cct(&case),
            "codeflag" => codeflag(&case),
            op => json!({ "badop": op }),
        };
        let mut w = stdout.lock();
        serde_json::to_writer(&mut w, &out).unwrap();
        w.write_all(b"\n").unwrap();
        w.flush().unwrap();
    }
}

/// The tables a generated text defines: name, title, texts; null if it is no such text.
fn items(text: &str) -> Value {
    if text.trim().is_empty() || text.trim() == "[]" {
        return json!([]);
    }
    let Ok(file) = syn::parse_file(text) else { return Value::Null };
    let mut out = Vec::new();
    for item in file.items {
        let syn::Item::Const(c) = item else { return Value::Null };
        let mut title = Vec::new();
        for a in &c.attrs {
            let syn::Meta::NameValue(nv) = &a.meta else { return Value::Null };
            let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value else { return Value::Null };
            let s = s.value();
            title.push(s.strip_prefix(' ').unwrap_or(&s).to_string());
        }
        let mut e = &*c.expr;
        if let syn::Expr::Reference(r) = e {
            e = &r.expr;
        }
        let syn::Expr::Array(a) = e else { return Value::Null };
        let mut texts = Vec::new();
        for x in &a.elems {
            let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = x else { return Value::Null };
            texts.push(s.value());
        }
        out.push(json!([c.ident.to_string(), title.join("\n"), texts]));
    }
    json!(out)
}

/// Loads common-code-table CSV files and exports them.
pub fn cct(case: &Value) -> Value {
    let mut db = grib_build::cct_csv::CodeDB::new();
    let mut loads = Vec::new();
    for p in case["paths"].as_array().unwrap() {
        loads.push(match guard(|| db.load(p.as_str().unwrap()).map_err(|e| e.to_string())) {
            Ok(Ok(())) => json!("ok"),
            Ok(Err(_)) => json!("err"),
            Err(m) => panicked(m),
        });
    }
    let text = guard(|| db.to_string()).map(|s| items(&s)).unwrap_or_else(panicked);
    let exports: Vec<Value> = [0u8, 11, 1]
        .iter()
        .map(|i| guard(|| db.export(*i)).map(|s| items(&s)).unwrap_or_else(panicked))
        .collect();
    json!({"loads": loads, "text": text, "exports": exports})
}

/// Loads GRIB2 code-table CSV files and exports them.
pub fn codeflag(case: &Value) -> Value {
    use grib_build::grib2_codeflag_csv::{CodeDB, OptArg};
    let mut db = CodeDB::new();
    let mut loads = Vec::new();
    for p in case["paths"].as_array().unwrap() {
        loads.push(match guard(|| db.load(p.as_str().unwrap()).map_err(|e| e.to_string())) {
            Ok(Ok(())) => json!("ok"),
            Ok(Err(_)) => json!("err"),
            Err(m) => panicked(m),
        });
    }
    let text = guard(|| db.to_string()).map(|s| items(&s)).unwrap_or_else(panicked);
    let exports: Vec<Value> = case["ids"]
        .as_array()
        .map(|a| a.to_vec())
        .unwrap_or_default()
        .iter()
        .map(|i| {
            let n = |k: usize| i[k].as_u64().map(|x| x as u8);
            let o = match (n(2), n(3)) {
                (Some(a), Some(b)) => OptArg::L2(a, b),
                (Some(a), None) => OptArg::L1(a),
                _ => OptArg::None,
            };
            guard(|| db.export((n(0).unwrap(), n(1).unwrap(), o))).map(|s| items(&s)).unwrap_or_else(panicked)
        })
        .collect();
    json!({"loads": loads, "text": text, "exports": exports})
}
