use grib::{
    from_reader, EarthShapeDefinition, GridDefinitionTemplateValues, GridPointIndexIterator,
    LatLonGridDefinition, ProjectionCentreFlag, ScanningMode, SubMessage,
};
use serde_json::{json, Value};

use crate::{
    decode::fbits,
    flaky::Flaky,
    util::{bytes, gerr, guard, panicked},
};

const CAP: usize = 20_000;

/// a finite f64 as [sign+exponent+top 20 bits, low 32 bits]; NaN/inf as [-1]
pub fn f64w(v: f64) -> Value {
    if v.is_finite() {
        let b = v.to_bits();
        json!([(b >> 32) as u32, b as u32])
    } else {
        json!([-1])
    }
}

fn hint<I: Iterator>(it: &I) -> Value {
    let (a, b) = it.size_hint();
    match b {
        Some(b) => json!([a, b]),
        None => json!([a, -1]),
    }
}

/// All items with the announced remaining length before each, at most `cap`; at
/// step `clone_at` the iterator is cloned and the clone run to its end first.
fn run_ij(mut it: GridPointIndexIterator, case: &Value) -> Value {
    let clone_at = case["clone_at"].as_u64().map(|x| x as usize);
    let cap = case["cap"].as_u64().map(|x| x as usize).unwrap_or(CAP);
    let (mut v, mut hs, mut tail) = (Vec::new(), Vec::new(), Vec::new());
    let r = guard(|| {
        loop {
            hs.push(hint(&it));
            if Some(v.len()) == clone_at {
                for p in it.clone() {
                    tail.push(json!([p.0, p.1]));
                    if tail.len() > cap {
                        break;
                    }
                }
            }
            match it.next() {
                None => break,
                Some(p) => v.push(json!([p.0, p.1])),
            }
            if v.len() > cap {
                break;
            }
        }
        // fused
        (it.next().is_none() && it.next().is_none()) || v.len() > cap
    });
    match r {
        Err(m) => json!({"res": panicked(m), "ij": v, "hints": hs, "tail": tail}),
        Ok(fused) => json!({"res": {"k": "ok"}, "ij": v, "hints": hs, "tail": tail, "fused": fused}),
    }
}

/// Index iteration of a grid given directly by its shape and mode.
pub fn ij(case: &Value) -> Value {
    let def = LatLonGridDefinition {
        ni: case["ni"].as_u64().unwrap() as u32,
        nj: case["nj"].as_u64().unwrap() as u32,
        first_point_lat: 0,
        first_point_lon: 0,
        last_point_lat: 0,
        last_point_lon: 0,
        scanning_mode: ScanningMode(case["mode"].as_u64().unwrap() as u8),
    };
    match guard(|| def.ij()) {
        Err(m) => json!({"res": panicked(m)}),
        Ok(Err(e)) => json!({"res": gerr(&e)}),
        Ok(Ok(it)) => run_ij(it, case),
    }
}

/// Everything a submessage says about its grid.
pub fn points<R>(s: &SubMessage<R>, case: &Value) -> Value {
    let shape = match guard(|| s.grid_shape()) {
        Err(m) => json!({"res": panicked(m)}),
        Ok(Err(e)) => json!({"res": gerr(&e)}),
        Ok(Ok((a, b))) => json!({"res": {"k": "ok"}, "shape": [a, b]}),
    };
    let name = guard(|| {
        GridDefinitionTemplateValues::try_from(s.grid_def())
            .map(|d| d.short_name())
            .unwrap_or("-")
    })
    .unwrap_or("panic");
    let ij = match guard(|| s.ij()) {
        Err(m) => json!({"res": panicked(m)}),
        Ok(Err(e)) => json!({"res": gerr(&e)}),
        Ok(Ok(it)) => run_ij(it, case),
    };
    proj::reset();
    if let Some(f) = case["proj_fail"].as_str() {
        proj::CALLS.with(|c| {
            let mut c = c.borrow_mut();
            c.fail_new = f == "new";
            c.fail_project = f == "project";
            c.fail_array = f == "array";
        });
    }
    let cap = case["cap"].as_u64().map(|x| x as usize).unwrap_or(CAP);
    let (mut pts, mut hs, mut tail) = (Vec::new(), Vec::new(), Vec::new());
    let r = guard(|| match s.latlons() {
        Err(e) => gerr(&e),
        Ok(mut it) => {
            loop {
                hs.push(hint(&it));
                if Some(pts.len()) == case["clone_at"].as_u64().map(|x| x as usize) {
                    for p in it.clone() {
                        tail.push(json!([fbits(p.0), fbits(p.1)]));
                        if tail.len() > cap {
                            break;
                        }
                    }
                }
                match it.next() {
                    None => break,
                    Some(p) => pts.push(json!([fbits(p.0), fbits(p.1)])),
                }
                if pts.len() > cap {
                    break;
                }
            }
            json!({"k": "ok"})
        }
    });
    let c = proj::take();
    let w = |p: &(f64, f64)| json!([f64w(p.0), f64w(p.1)]);
    let calls = json!({
        "defs": c.defs,
        "projected": c.projected.iter().map(|(p, i)| json!([w(p), i])).collect::<Vec<_>>(),
        "arrays": c.arrays.iter().map(|(a, i)| json!([a.iter().map(w).collect::<Vec<_>>(), i])).collect::<Vec<_>>(),
    });
    let res = r.unwrap_or_else(panicked);
    json!({"shape": shape, "name": name, "ij": ij, "latlons": {"res": res, "pts": pts, "hints": hs, "tail": tail}, "proj": calls})
}

/// Grid of the submessages of a file.
pub fn gridfile(case: &Value) -> Value {
    let fl = Flaky::new(bytes(&case["data"]), &json!({}));
    let r = guard(|| match from_reader(fl) {
        Err(e) => json!({"open": gerr(&e)}),
        Ok(g) => {
            let v: Vec<Value> = g.iter().map(|(_, s)| points(&s, case)).collect();
            json!({"open": {"k": "ok"}, "subs": v})
        }
    });
    r.unwrap_or_else(|m| json!({"open": panicked(m)}))
}

/// Gaussian latitudes in radians, as f64 bit patterns.
pub fn gaussian(case: &Value) -> Value {
    let n = case["n"].as_u64().unwrap() as usize;
    let r = guard(|| {
        let (a, b) = grib::utils::compute_gaussian_latitudes(n).size_hint();
        let v: Vec<Value> = grib::utils::compute_gaussian_latitudes(n)
            .map(|x| match x {
                None => json!([]),
                Some(v) => f64w(v),
            })
            .collect();
        json!({"res": {"k": "ok"}, "lats": v, "hint": [a, b.map(|x| x as i64).unwrap_or(-1)]})
    });
    r.unwrap_or_else(|m| json!({"res": panicked(m)}))
}

/// Radii of an earth shape.
pub fn radii(case: &Value) -> Value {
    let u = |k: &str| case[k].as_u64().unwrap_or(0);
    let d = EarthShapeDefinition {
        shape_of_the_earth: u("shape") as u8,
        scale_factor_of_radius_of_spherical_earth: u("rs") as u8,
        scaled_value_of_radius_of_spherical_earth: u("rv") as u32,
        scale_factor_of_earth_major_axis: u("as") as u8,
        scaled_value_of_earth_major_axis: u("av") as u32,
        scale_factor_of_earth_minor_axis: u("bs") as u8,
        scaled_value_of_earth_minor_axis: u("bv") as u32,
    };
    match guard(|| d.radii()) {
        Err(m) => json!({"res": panicked(m)}),
        Ok(None) => json!({"res": {"k": "none"}}),
        Ok(Some((a, b))) => json!({"res": {"k": "ok"}, "a": f64w(a), "b": f64w(b)}),
    }
}

/// The items of an iterator at the positions `at` (ascending) with the remaining
/// length announced before each, and how many items there are (at most `max`).
fn sparse<I: Iterator>(mut it: I, case: &Value, show: impl Fn(I::Item) -> Value) -> Value {
    let at: Vec<u64> = case["at"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let max = case["max"].as_u64().unwrap();
    let (mut v, mut hs, mut n, mut k) = (Vec::new(), Vec::new(), 0u64, 0);
    loop {
        let wanted = k < at.len() && at[k] == n;
        if wanted {
            hs.push(hint(&it));
        }
        match it.next() {
            None => break,
            Some(p) => {
                if wanted {
                    v.push(show(p));
                    k += 1;
                }
            }
        }
        n += 1;
        if n >= max {
            break;
        }
    }
    json!({"res": {"k": "ok"}, "items": v, "hints": hs, "total": n})
}

/// Chosen points of the grid of a file's first submessage.
pub fn gridsparse(case: &Value) -> Value {
    let r = guard(|| {
        let g = match from_reader(Flaky::new(bytes(&case["data"]), &json!({}))) {
            Err(e) => return json!({"open": gerr(&e)}),
            Ok(g) => g,
        };
        let (_, s) = g.iter().next().unwrap();
        let want = |x: &str| case["look"].as_array().unwrap().iter().any(|y| y == x);
        let unseen = json!({"res": {"k": "-"}});
        let ij = if !want("ij") { unseen.clone() } else { match guard(|| s.ij().map(|it| sparse(it, case, |p| json!([p.0, p.1])))) {
            Err(m) => json!({"res": panicked(m)}),
            Ok(Err(e)) => json!({"res": gerr(&e)}),
            Ok(Ok(v)) => v,
        } };
        proj::reset();
        let ll = if !want("latlons") { unseen } else { match guard(|| s.latlons().map(|it| sparse(it, case, |p| json!([fbits(p.0), fbits(p.1)])))) {
            Err(m) => json!({"res": panicked(m)}),
            Ok(Err(e)) => json!({"res": gerr(&e)}),
            Ok(Ok(v)) => v,
        } };
        proj::reset();
        json!({"open": {"k": "ok"}, "ij": ij, "latlons": ll})
    });
    r.unwrap_or_else(|m| json!({"open": panicked(m)}))
}

/// What the flag octets say.
pub fn flags(case: &Value) -> Value {
    let m = case["m"].as_u64().unwrap() as u8;
    let (s, c) = (ScanningMode(m), ProjectionCentreFlag(m));
    json!({
        "mode": [s.scans_positively_for_i(), s.scans_positively_for_j(), s.is_consecutive_for_i(), s.scans_alternating_rows()],
        "centre": [c.contains_north_pole_on_projection_plane(), c.is_bipolar()],
    })
}
