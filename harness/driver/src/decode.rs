use grib::{from_reader, Grib2, Grib2SubmessageDecoder, SeekableGrib2Reader, SubMessage};
use serde_json::{json, Value};

use crate::{
    flaky::Flaky,
    grid::points,
    meta::header,
    util::{bytes, gerr, guard, hex, panicked},
};

const CAP: usize = 2_000_000;

/// f32 as its bit pattern; every NaN is -1
pub fn fbits(v: f32) -> i64 {
    if v.is_nan() {
        -1
    } else {
        i64::from(v.to_bits())
    }
}

fn values(dec: &Grib2SubmessageDecoder, limit: usize, hint_every: usize, cap: usize) -> Value {
    values_at(dec, limit, hint_every, cap, None)
}

/// `at`: the positions of the values reported (instead of the first ones)
fn values_at(dec: &Grib2SubmessageDecoder, limit: usize, hint_every: usize, cap: usize, at: Option<&[usize]>) -> Value {
    let mut vals: Vec<i64> = Vec::new();
    let mut hints: Vec<[i64; 3]> = Vec::new();
    let mut after: Vec<i64> = Vec::new();
    let mut k = 0usize;
    let r = guard(|| match dec.dispatch() {
        Err(e) => Some(gerr(&e)),
        Ok(mut it) => {
            loop {
                if hint_every > 0 && k % hint_every == 0 {
                    let (a, b) = it.size_hint();
                    hints.push([k as i64, a as i64, b.map(|x| x as i64).unwrap_or(-1)]);
                }
                match it.next() {
                    None => break,
                    Some(v) => {
                        if at.map_or(k < limit, |at| at.get(vals.len()) == Some(&k)) {
                            vals.push(fbits(v));
                        }
                        k += 1;
                    }
                }
                if k > cap {
                    break;
                }
            }
            if hint_every > 0 {
                let (a, b) = it.size_hint();
                hints.push([k as i64, a as i64, b.map(|x| x as i64).unwrap_or(-1)]);
            }
            for _ in 0..3 {
                if let Some(v) = it.next() {
                    after.push(fbits(v));
                }
            }
            None
        }
    });
    let res = match r {
        Err(m) => panicked(m),
        Ok(Some(e)) => e,
        Ok(None) => json!({"k": "ok"}),
    };
    json!({"res": res, "n": k, "vals": vals, "hints": hints, "after": after})
}

type G = Grib2<SeekableGrib2Reader<Flaky>>;

fn with_sub<T>(g: &G, k: usize, f: impl FnOnce(SubMessage<SeekableGrib2Reader<Flaky>>) -> T) -> Option<T> {
    // not nth(): how the iterator skips is another property
    let mut it = g.iter();
    for _ in 0..k {
        it.next()?;
    }
    it.next().map(|(_, s)| f(s))
}

/// Decodes submessage `sub` (default 0; "all" for every one).
pub fn decode(case: &Value) -> Value {
    let fl = Flaky::new(bytes(&case["data"]), case);
    let limit = case["limit"].as_u64().unwrap_or(100_000) as usize;
    let he = case["hints"].as_u64().unwrap_or(0) as usize;
    let cap = case["cap"].as_u64().map(|x| x as usize).unwrap_or(CAP);
    let at: Option<Vec<usize>> = case["at"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
    let armed = fl.counters.armed.clone();
    if case["arm_after_open"].as_bool().unwrap_or(false) {
        armed.set(false);
    }
    let c = fl.counters.clone();
    let g = match guard(|| from_reader(fl)) {
        Err(m) => return json!({"open": panicked(m)}),
        Ok(Err(e)) => return json!({"open": gerr(&e), "faults": c.faults.get()}),
        Ok(Ok(g)) => g,
    };
    if case["arm_after_open"].as_bool().unwrap_or(false) {
        armed.set(true);
        c.reads.set(0);
        c.seeks.set(0);
    }
    let subs: Vec<usize> = match case["sub"].as_str() {
        Some("all") => (0..g.len()).collect(),
        _ => vec![case["sub"].as_u64().unwrap_or(0) as usize],
    };
    let mut out = Vec::new();
    for k in subs {
        let r = guard(|| {
            with_sub(&g, k, |s| match Grib2SubmessageDecoder::from(s) {
                Err(e) => json!({"res": gerr(&e)}),
                Ok(d) => values_at(&d, limit, he, cap, at.as_deref()),
            })
        });
        out.push(match r {
            Err(m) => json!({"res": panicked(m)}),
            Ok(None) => json!({"res": {"k": "nosub"}}),
            Ok(Some(v)) => v,
        });
    }
    json!({"open": {"k": "ok"}, "subs": out, "reads": c.reads.get(), "seeks": c.seeks.get(), "faults": c.faults.get()})
}

type S<'a> = SubMessage<'a, SeekableGrib2Reader<Flaky>>;

/// What a client holds on to.
#[derive(Default)]
struct Held<'a> {
    decs: Vec<Option<Grib2SubmessageDecoder>>,
    subs: Vec<Option<S<'a>>>,
}

fn meta_of(s: &S) -> Value {
    let mut h = header(s);
    h["total"] = json!(0);
    h["describe"] = json!(s.describe());
    h
}

fn decode_of(s: S) -> Value {
    match Grib2SubmessageDecoder::from(s) {
        Err(e) => json!({"res": gerr(&e)}),
        Ok(d) => values(&d, 10_000, 0, CAP),
    }
}

fn observe<'a>(g: &'a G, what: &str, k: usize, held: &mut Held<'a>) -> Value {
    let none = json!({"res": {"k": "nosub"}});
    match what {
        "meta" => with_sub(g, k, |s| meta_of(&s)).unwrap_or(none),
        "grid" => with_sub(g, k, |s| points(&s, &json!({}))).unwrap_or(none),
        "decode" => with_sub(g, k, decode_of).unwrap_or(none),
        "partial" => with_sub(g, k, |s| match Grib2SubmessageDecoder::from(s) {
            // draws only some of the values, then drops the iterator
            Err(e) => json!({"res": gerr(&e)}),
            Ok(d) => match d.dispatch() {
                Err(e) => json!({"res": gerr(&e)}),
                Ok(it) => json!({"res": {"k": "ok"}, "vals": it.take(3).map(fbits).collect::<Vec<_>>()}),
            },
        })
        .unwrap_or(none),
        "hold" => with_sub(g, k, |s| match Grib2SubmessageDecoder::from(s) {
            Err(e) => {
                held.decs.push(None);
                json!({"res": gerr(&e)})
            }
            Ok(d) => {
                held.decs.push(Some(d));
                json!({"res": {"k": "ok"}})
            }
        })
        .unwrap_or(none),
        "draw" => match &held.decs[k] {
            None => json!({"res": {"k": "nosub"}}),
            Some(d) => values(d, 10_000, 0, CAP),
        },
        "keep" => {
            let mut it = g.iter();
            for _ in 0..k {
                it.next();
            }
            held.subs.push(it.next().map(|(_, s)| s));
            json!({"res": {"k": "ok"}})
        }
        "kmeta" => held.subs[k].as_ref().map(|s| meta_of(s)).unwrap_or(none),
        "kgrid" => held.subs[k].as_ref().map(|s| points(s, &json!({}))).unwrap_or(none),
        "kdecode" => held.subs[k].take().map(decode_of).unwrap_or(none),
        "walk" => {
            let mut v = Vec::new();
            for (i, s) in g.iter() {
                v.push(json!([i.0, i.1, s.4.body.offset]));
            }
            json!({ "walk": v })
        }
        "collect" => {
            let v: Vec<_> = g.iter().collect();
            json!({ "walk": v.iter().map(|(i, s)| json!([i.0, i.1, s.4.body.offset])).collect::<Vec<_>>() })
        }
        o => json!({ "badop": o }),
    }
}

/// A history of accesses to one open file.  ops: [[what, k, f], ...]; the f-th
/// read or seek of the operation fails (0: none).
pub fn history(case: &Value) -> Value {
    let fl = Flaky::new(bytes(&case["data"]), case);
    let c = fl.counters.clone();
    c.armed.set(false);
    let g = match guard(|| from_reader(fl)) {
        Err(m) => return json!({"open": panicked(m)}),
        Ok(Err(e)) => return json!({"open": gerr(&e)}),
        Ok(Ok(g)) => g,
    };
    c.armed.set(true);
    let mut held = Held::default();
    let mut out = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let what = op[0].as_str().unwrap();
        let k = crate::util::many(&op[1]);
        c.fail_in.set(op[2].as_u64().unwrap_or(0) as usize);
        c.faults.set(0);
        let v = match guard(|| observe(&g, what, k, &mut held)) {
            Ok(v) => v,
            Err(m) => json!({"res": panicked(m)}),
        };
        c.fail_in.set(0);
        out.push(json!([v, c.faults.get()]));
    }
    json!({"open": {"k": "ok"}, "out": out})
}

/// Encodes samples as a PNG (grayscale, given depth).
pub fn pngenc(case: &Value) -> Value {
    let (w, h) = (case["w"].as_u64().unwrap() as u32, case["h"].as_u64().unwrap() as u32);
    let depth = case["depth"].as_u64().unwrap();
    let color = match case["color"].as_str().unwrap_or("gray") {
        "gray" => png::ColorType::Grayscale,
        "graya" => png::ColorType::GrayscaleAlpha,
        "rgb" => png::ColorType::Rgb,
        _ => png::ColorType::Rgba,
    };
    let raw = bytes(&case["raw"]); // already packed rows
    let mut out = Vec::new();
    let r = guard(|| {
        let mut e = png::Encoder::new(&mut out, w, h);
        e.set_color(color);
        e.set_depth(match depth {
            1 => png::BitDepth::One,
            2 => png::BitDepth::Two,
            4 => png::BitDepth::Four,
            8 => png::BitDepth::Eight,
            _ => png::BitDepth::Sixteen,
        });
        if let Some(f) = case["filter"].as_u64() {
            e.set_filter(match f {
                0 => png::FilterType::NoFilter,
                1 => png::FilterType::Sub,
                2 => png::FilterType::Up,
                3 => png::FilterType::Avg,
                _ => png::FilterType::Paeth,
            });
        }
        let mut w = e.write_header().unwrap();
        w.write_image_data(&raw).unwrap();
        w.finish().unwrap();
    });
    match r {
        Ok(()) => json!({ "png": hex(&out) }),
        Err(m) => json!({ "bad": m }),
    }
}
