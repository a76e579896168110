use grib::{
    from_reader, Code, FixedSurface, ForecastTime, GridDefinitionTemplateValues, Identification,
    ProdDefinition, GridDefinition, ReprDefinition, SectionBody, SubMessage,
};
use serde_json::{json, Value};

use crate::{
    flaky::Flaky,
    grid::f64w,
    util::{bytes, gerr, guard, hex, panicked},
};

/// u32 as [hi16, lo16]: TLC integers have 32 bits
fn w32(v: u32) -> Value {
    json!([v >> 16, v & 0xffff])
}

fn w64(v: u64) -> Value {
    json!([(v >> 48) & 0xffff, (v >> 32) & 0xffff, (v >> 16) & 0xffff, v & 0xffff])
}

/// i32 as [negative, hi16, lo16] of its absolute value
fn s32(v: i32) -> Value {
    let a = v.unsigned_abs();
    json!([(v < 0) as u8, a >> 16, a & 0xffff])
}

fn ident(i: &Identification) -> Value {
    use chrono::{Datelike, Timelike};
    let t = match guard(|| i.ref_time()) {
        Err(m) => panicked(m),
        Ok(Err(e)) => gerr(&e),
        Ok(Ok(t)) => {
            json!({"k": "ok", "t": [t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second()]})
        }
    };
    json!({
        "centre": i.centre_id(), "sub": i.subcentre_id(), "master": i.master_table_version(),
        "local": i.local_table_version(), "sig": i.ref_time_significance(), "time": t,
        "status": i.prod_status(), "type": i.data_type(), "payload": hex(&i.iter().copied().collect::<Vec<_>>()),
    })
}

fn griddef(d: &GridDefinition) -> Value {
    let t = match guard(|| GridDefinitionTemplateValues::try_from(d)) {
        Err(m) => panicked(m),
        Ok(Err(e)) => gerr(&e),
        Ok(Ok(v)) => {
            let es = |e: &grib::EarthShapeDefinition| {
                json!([e.shape_of_the_earth, e.scale_factor_of_radius_of_spherical_earth,
                    w32(e.scaled_value_of_radius_of_spherical_earth), e.scale_factor_of_earth_major_axis,
                    w32(e.scaled_value_of_earth_major_axis), e.scale_factor_of_earth_minor_axis,
                    w32(e.scaled_value_of_earth_minor_axis)])
            };
            match &v {
                GridDefinitionTemplateValues::Template0(g) => json!({"k": "ok", "t": 0, "name": v.short_name(),
                    "u": [w32(g.ni), w32(g.nj)],
                    "s": [s32(g.first_point_lat), s32(g.first_point_lon), s32(g.last_point_lat), s32(g.last_point_lon)],
                    "o": [g.scanning_mode.0], "e": []}),
                GridDefinitionTemplateValues::Template40(g) => json!({"k": "ok", "t": 40, "name": v.short_name(),
                    "u": [w32(g.ni), w32(g.nj), w32(g.i_direction_inc), w32(g.n)],
                    "s": [s32(g.first_point_lat), s32(g.first_point_lon), s32(g.last_point_lat), s32(g.last_point_lon)],
                    "o": [g.scanning_mode.0], "e": []}),
                GridDefinitionTemplateValues::Template20(g) => json!({"k": "ok", "t": 20, "name": v.short_name(),
                    "u": [w32(g.ni), w32(g.nj), w32(g.dx), w32(g.dy)],
                    "s": [s32(g.first_point_lat), s32(g.first_point_lon), s32(g.lad), s32(g.lov)],
                    "o": [g.projection_centre.0, g.scanning_mode.0], "e": es(&g.earth_shape)}),
                GridDefinitionTemplateValues::Template30(g) => json!({"k": "ok", "t": 30, "name": v.short_name(),
                    "u": [w32(g.ni), w32(g.nj), w32(g.dx), w32(g.dy)],
                    "s": [s32(g.first_point_lat), s32(g.first_point_lon), s32(g.lad), s32(g.lov), s32(g.latin1), s32(g.latin2)],
                    "o": [g.scanning_mode.0], "e": es(&g.earth_shape)}),
            }
        }
    };
    json!({"num": w32(d.num_points()), "tmpl": d.grid_tmpl_num(), "def": t, "payload": hex(&d.iter().copied().collect::<Vec<_>>())})
}

fn surf(s: &FixedSurface) -> Value {
    json!([s.surface_type, s.scale_factor, s32(s.scaled_value)])
}

fn proddef(d: &ProdDefinition) -> Value {
    let o = |r: Result<Option<u8>, String>| match r {
        Err(m) => panicked(m),
        Ok(None) => json!([]),
        Ok(Some(v)) => json!([v]),
    };
    let ft = match guard(|| d.forecast_time()) {
        Err(m) => panicked(m),
        Ok(None) => json!([]),
        Ok(Some(f)) => {
            let u = match f.unit {
                Code::Name(n) => u8::from(n),
                Code::Num(n) => n,
            };
            json!([u, w32(f.value)])
        }
    };
    let fs = match guard(|| d.fixed_surfaces()) {
        Err(m) => panicked(m),
        Ok(None) => json!([]),
        Ok(Some((a, b))) => json!([surf(&a), surf(&b)]),
    };
    json!({
        "ncoord": d.num_coordinates(), "tmpl": d.prod_tmpl_num(),
        "cat": o(guard(|| d.parameter_category())), "num": o(guard(|| d.parameter_number())),
        "gen": o(guard(|| d.generating_process())), "ft": ft, "fs": fs,
        "payload": hex(&d.iter().copied().collect::<Vec<_>>()),
    })
}

pub fn header<R>(s: &SubMessage<R>) -> Value {
    let i = s.indicator();
    let id = match s.1.body.body.as_ref() {
        Some(SectionBody::Section1(x)) => ident(x),
        _ => json!("absent"),
    };
    let local = match s.2.as_ref().and_then(|x| x.body.body.as_ref()) {
        Some(SectionBody::Section2(x)) => json!([hex(&x.iter().copied().collect::<Vec<_>>())]),
        _ => json!([]),
    };
    let param = match guard(|| s.parameter()) {
        Err(m) => panicked(m),
        Ok(None) => json!([]),
        Ok(Some(p)) => json!([p.discipline, p.centre, p.master_ver, p.local_ver, p.category, p.num]),
    };
    let pdesc = guard(|| s.parameter().map(|p| p.description().unwrap_or("-".into())).unwrap_or("absent".into()))
        .unwrap_or("panic".into());
    let r = s.repr_def();
    let bm = match s.6.body.body.as_ref() {
        Some(SectionBody::Section6(b)) => json!(b.bitmap_indicator),
        _ => json!(-1),
    };
    json!({
        "disc": i.discipline, "total": w64(i.total_length), "ident": id, "local": local,
        "grid": griddef(s.grid_def()), "prod": proddef(s.prod_def()),
        "repr": {"num": w32(r.num_points()), "tmpl": r.repr_tmpl_num(), "payload": hex(&r.iter().copied().collect::<Vec<_>>())},
        "bitmap": bm, "param": param, "pdesc": pdesc,
        "ncep": param_ncep(s),
        "tmpl": [s.3.describe().unwrap_or("-".into()), s.4.describe().unwrap_or("-".into()), s.5.describe().unwrap_or("-".into())],
        "codes": [s.3.template_code().map(|t| t.to_string()), s.4.template_code().map(|t| t.to_string()),
                  s.5.template_code().map(|t| t.to_string()), s.1.template_code().map(|t| t.to_string())],
    })
}

/// which of the named NCEP codes the parameter is identical to
fn param_ncep<R>(s: &SubMessage<R>) -> Value {
    use grib::codetables::NCEP;
    let Ok(Some(p)) = guard(|| s.parameter()) else { return json!([]) };
    let mut v = Vec::new();
    for (n, c) in [("PRES", NCEP::PRES), ("PRMSL", NCEP::PRMSL), ("HGT", NCEP::HGT)] {
        if p.is_identical_to(c) {
            v.push(n);
        }
    }
    json!(v)
}

/// The parameters of a discipline that have a code of NCEP, and what they are identical to.
pub fn named(case: &Value) -> Value {
    use grib::codetables::NCEP;
    let n = |k: &str| case[k].as_u64().unwrap();
    let mut out = Vec::new();
    let r = guard(|| {
        for category in 0..=255u8 {
            for num in 0..=255u8 {
                let p = grib::Parameter {
                    discipline: n("discipline") as u8,
                    centre: n("centre") as u16,
                    master_ver: n("master") as u8,
                    local_ver: n("local") as u8,
                    category,
                    num,
                };
                if let Ok(code) = NCEP::try_from(&p) {
                    let same: Vec<&str> = [("PRES", NCEP::PRES), ("PRMSL", NCEP::PRMSL), ("HGT", NCEP::HGT)]
                        .into_iter()
                        .filter(|(_, c)| p.is_identical_to(c.clone()))
                        .map(|x| x.0)
                        .collect();
                    let name = format!("{code:?}");
                    let value: u32 = code.into();
                    out.push(json!([category, num, name, value.to_string(), same]));
                } else if p.is_identical_to(NCEP::PRES) || p.is_identical_to(NCEP::PRMSL) || p.is_identical_to(NCEP::HGT) {
                    out.push(json!([category, num, "", "0", []]));
                }
            }
        }
    });
    match r {
        Ok(()) => json!({"res": {"k": "ok"}, "named": out}),
        Err(m) => json!({"res": panicked(m), "named": []}),
    }
}

/// Header fields of every submessage of a file.
pub fn meta(case: &Value) -> Value {
    let fl = Flaky::new(bytes(&case["data"]), &json!({}));
    let r = guard(|| match from_reader(fl) {
        Err(e) => json!({"open": gerr(&e)}),
        Ok(g) => {
            let v: Vec<Value> = g
                .iter()
                .map(|(i, s)| {
                    let mut h = header(&s);
                    h["index"] = json!([i.0, i.1]);
                    h["describe"] = guard(|| json!(s.describe())).unwrap_or_else(panicked);
                    h
                })
                .collect();
            json!({"open": {"k": "ok"}, "subs": v})
        }
    });
    r.unwrap_or_else(|m| json!({"open": panicked(m)}))
}

/// A section payload given directly: kind 1, 3, 4 or 5.
pub fn payload(case: &Value) -> Value {
    let b = bytes(&case["data"]).into_boxed_slice();
    let r = guard(|| match case["kind"].as_u64().unwrap() {
        1 => Identification::from_payload(b).map(|d| ident(&d)).map_err(|_| ()),
        3 => GridDefinition::from_payload(b).map(|d| griddef(&d)).map_err(|_| ()),
        4 => ProdDefinition::from_payload(b).map(|d| proddef(&d)).map_err(|_| ()),
        _ => ReprDefinition::from_payload(b)
            .map(|r| json!({"num": w32(r.num_points()), "tmpl": r.repr_tmpl_num(), "payload": hex(&r.iter().copied().collect::<Vec<_>>())}))
            .map_err(|_| ()),
    });
    match r {
        Err(m) => json!({"res": panicked(m)}),
        Ok(Err(())) => json!({"res": {"k": "err", "e": "short", "a": 0}}),
        Ok(Ok(v)) => json!({"res": {"k": "ok"}, "v": v}),
    }
}

pub fn surface(case: &Value) -> Value {
    let t = case["t"].as_u64().unwrap() as u8;
    let sf = case["sf"].as_i64().unwrap() as i8;
    let sv = case["sv"].as_i64().unwrap() as i32;
    let r = guard(|| {
        let s = FixedSurface::new(t, sf, sv);
        let d = s.describe();
        let v = s.value();
        json!({"value": f64w(v), "nan": v.is_nan(), "vnan": s.value_is_nan(), "snan": s.scale_factor_is_nan(),
            "unit": s.unit().unwrap_or(""), "d": [d.0, d.1, d.2]})
    });
    r.unwrap_or_else(|m| json!({"res": panicked(m)}))
}

/// Text forms of a forecast time.
pub fn fmt(case: &Value) -> Value {
    let u = case["unit"].as_u64().unwrap() as u8;
    let v = case["value"].as_u64().unwrap() as u32;
    let r = guard(|| {
        let f = ForecastTime::from_numbers(u, v);
        let d = f.describe();
        json!({"display": f.to_string(), "unit": d.0, "value": d.1})
    });
    r.unwrap_or_else(|m| json!({"res": panicked(m)}))
}
