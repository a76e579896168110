use std::{cell::RefCell, panic::AssertUnwindSafe};

use grib::{GribError, ParseError};
use serde_json::{json, Value};

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        LAST.with(|l| *l.borrow_mut() = info.to_string().replace('\n', " "));
    }));
}

/// Runs `f`; a panic of the code under test becomes data.
pub fn guard<F: FnOnce() -> T, T>(f: F) -> Result<T, String> {
    std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    assert!(b.len() % 2 == 0);
    (0..b.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn bytes(v: &Value) -> Vec<u8> {
    unhex(v.as_str().expect("hex string"))
}

pub fn perr(e: &ParseError) -> Value {
    let (k, a) = match e {
        ParseError::ReadError(_) => ("ReadError", 0),
        ParseError::NotGRIB => ("NotGRIB", 0),
        ParseError::GRIBVersionMismatch(v) => ("GRIBVersionMismatch", *v as usize),
        ParseError::UnknownSectionNumber(v) => ("UnknownSectionNumber", *v as usize),
        ParseError::EndSectionMismatch => ("EndSectionMismatch", 0),
        ParseError::UnexpectedEndOfData(p) => ("UnexpectedEndOfData", *p),
        ParseError::InvalidSectionOrder(p) => ("InvalidSectionOrder", *p),
        ParseError::NoGridDefinition(p) => ("NoGridDefinition", *p),
        _ => ("Other", 0),
    };
    json!({"k": "err", "e": k, "a": a})
}

pub fn gerr(e: &GribError) -> Value {
    match e {
        GribError::ParseError(p) => perr(p),
        GribError::InternalDataError => json!({"k": "err", "e": "InternalDataError", "a": 0}),
        GribError::DecodeError(d) => {
            json!({"k": "err", "e": "DecodeError", "a": 0, "d": format!("{d:?}")})
        }
        GribError::InvalidValueError(_) => json!({"k": "err", "e": "InvalidValueError", "a": 0}),
        GribError::NotSupported(_) => json!({"k": "err", "e": "NotSupported", "a": 0}),
        GribError::Unknown(_) => json!({"k": "err", "e": "Unknown", "a": 0}),
    }
}

pub fn panicked(m: String) -> Value {
    json!({"k": "panic", "m": m})
}

/// A number of items, as large as the target can hold.
pub fn many(v: &Value) -> usize {
    v.as_u64().unwrap_or(0).min(usize::MAX as u64) as usize
}
