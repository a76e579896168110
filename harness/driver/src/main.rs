//! Executes operations on the real code and reports what it observed, one JSON
//! object per input line.  It judges nothing: the TLA+ specifications do.
mod answer;
mod flaky;
mod grid;
mod j2k;
mod library;
mod meta;
mod reader;
mod seq;
mod decode;
mod tables;
mod util;

use std::io::{BufRead, Write};

use serde_json::Value;

fn main() {
    util::install_hook();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("input");
        if line.is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case");
        let out = answer::answer(&case);
        let mut w = stdout.lock();
        serde_json::to_writer(&mut w, &out).unwrap();
        w.write_all(b"\n").unwrap();
        w.flush().unwrap();
    }
}
