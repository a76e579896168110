//! Prints variants and conversions of every generated enumeration, one line of JSON each.
//! Arguments: a file with one line per enumeration of codes to convert ("*": all below 2^24).
use std::io::Write;

pub trait Dump {
    fn variants() -> Vec<(&'static str, u64)>;
    fn name(code: u32) -> Option<String>;
}

fn show<T: Dump>(out: &mut impl Write, probes: &str) {
    let mut map = Vec::new();
    let mut one = |k: u32| {
        if let Some(n) = T::name(k) {
            map.push(format!("[{},{},\"{}\"]", k >> 16, k & 65535, n));
        }
    };
    for w in probes.split_whitespace() {
        if w == "*" {
            (0..1 << 24).for_each(&mut one);
        } else {
            one(w.parse().unwrap());
        }
    }
    let vars: Vec<_> = T::variants()
        .iter()
        .map(|(n, d)| format!("[\"{}\",{},{}]", n, d >> 16, d & 65535))
        .collect();
    writeln!(out, "{{\"variants\":[{}],\"map\":[{}]}}", vars.join(","), map.join(",")).unwrap();
}

include!(concat!(env!("GRIB_CASES"), "/ok.rs"));

fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let probes: Vec<&str> = text.lines().collect();
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    run(&mut out, &probes);
}
