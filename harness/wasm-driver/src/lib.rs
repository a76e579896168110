//! The driver as a WebAssembly module: `run` takes a case as text and gives the answer as text.
//! A panic ends the module's run; run.mjs reports it and starts the module anew.
#[path = "../../driver/src/answer.rs"]
mod answer;
#[path = "../../driver/src/decode.rs"]
mod decode;
#[path = "../../driver/src/flaky.rs"]
mod flaky;
#[path = "../../driver/src/grid.rs"]
mod grid;
#[path = "../../driver/src/library.rs"]
mod library;
#[path = "../../driver/src/meta.rs"]
mod meta;
#[path = "../../driver/src/reader.rs"]
mod reader;
#[path = "../../driver/src/seq.rs"]
mod seq;
#[path = "../../driver/src/tables.rs"]
mod tables;
#[path = "../../driver/src/util.rs"]
mod util;

/// Room for n octets of input.
#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}

/// Runs the case of n octets at p; gives the address of the answer's length (4 octets) and text.
#[no_mangle]
pub extern "C" fn run(p: *mut u8, n: usize) -> *mut u8 {
    let text = unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)) };
    let case = serde_json::from_slice(&text).expect("case");
    let out = serde_json::to_vec(&answer::answer(&case)).unwrap();
    let mut v = (out.len() as u32).to_le_bytes().to_vec();
    v.extend(out);
    Box::leak(v.into_boxed_slice()).as_mut_ptr()
}

/// Frees an answer.
#[no_mangle]
pub extern "C" fn done(p: *mut u8, n: usize) {
    drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n + 4)) });
}
