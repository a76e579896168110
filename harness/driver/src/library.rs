use grib::{
    codetables::*, from_reader, Grib2SubmessageDecoder, GribError, GridDefinitionTemplateValues,
    SectionBody, SubMessage, SubMessageSection,
};
use serde_json::{json, Value};

use crate::{
    decode::fbits,
    flaky::Flaky,
    util::{bytes, gerr, guard, panicked},
};

fn info<R>(s: &SubMessage<R>) -> Value {
    let i = s.indicator();
    let Some(SectionBody::Section1(d)) = s.1.body.body.as_ref() else { return Value::Null };
    let time = match d.ref_time() {
        Ok(t) => json!(["ok", t.to_string()]),
        Err(_) => json!(["err", ""]),
    };
    json!({"time": time, "texts": [
        CodeTable0_0.lookup(i.discipline as usize).to_string(), i.total_length.to_string(),
        CommonCodeTable11.lookup(d.centre_id() as usize).to_string(), d.subcentre_id().to_string(),
        format!("{} ({})", d.master_table_version(), CommonCodeTable00.lookup(d.master_table_version() as usize)),
        format!("{} ({})", d.local_table_version(), CodeTable1_1.lookup(d.local_table_version() as usize)),
        CodeTable1_2.lookup(d.ref_time_significance() as usize).to_string(),
        CodeTable1_3.lookup(d.prod_status() as usize).to_string(),
        CodeTable1_4.lookup(d.data_type() as usize).to_string(),
    ]})
}

fn sub<R>(m: usize, k: usize, s: &SubMessage<R>, points: bool) -> Value {
    let p = s.prod_def();
    let opt = |x: &Option<SubMessageSection>| x.as_ref().map(|x| x.index.to_string()).unwrap_or("-".into());
    let surface = |x: &grib::FixedSurface| json!([x.value().to_string(), x.unit().unwrap_or("")]);
    let t = |x: &SubMessageSection| x.template_code().map(|t| t.to_string()).unwrap_or("-".into());
    let latlons = if !points { json!({"k": "unread", "v": []}) } else { match s.latlons() {
        Err(GribError::NotSupported(_)) => json!({"k": "unsupported", "v": []}),
        Err(_) => json!({"k": "err", "v": []}),
        Ok(it) => json!({"k": "ok", "v": it.map(|(a, b)| [fbits(a).to_string(), fbits(b).to_string()]).collect::<Vec<_>>()}),
    }};
    json!({
        "id": [m, k],
        "sects": [opt(&s.2), s.3.index.to_string(), s.4.index.to_string(), s.5.index.to_string(), s.6.index.to_string(), s.7.index.to_string()],
        "tmpls": [t(&s.3), t(&s.4), t(&s.5)],
        "param": p.parameter_category().zip(p.parameter_number())
            .map(|(c, n)| CodeTable4_2::new(s.indicator().discipline, c).lookup(n as usize).to_string()).unwrap_or_default(),
        "gen": p.generating_process().map(|v| CodeTable4_3.lookup(v as usize).to_string()).unwrap_or_default(),
        "ft": p.forecast_time().map(|v| v.to_string()).unwrap_or_default(),
        "surf": p.fixed_surfaces().map(|(a, b)| json!([surface(&a), surface(&b)])).unwrap_or(json!([])),
        "total": s.grid_def().num_points().to_string(),
        "repr": s.repr_def().num_points().to_string(),
        "grid": GridDefinitionTemplateValues::try_from(s.grid_def()).map(|d| d.short_name().to_string()).unwrap_or_default(),
        "gridtmpl": s.grid_def().grid_tmpl_num().to_string(),
        "describe": s.describe(), "info": info(s), "latlons": latlons,
    })
}

fn values<R: grib::Grib2Read>(s: SubMessage<R>) -> Value {
    let r = guard(|| -> Result<Vec<String>, GribError> {
        let d = Grib2SubmessageDecoder::from(s)?;
        let v = d.dispatch()?.map(|v| fbits(v).to_string()).collect();
        Ok(v)
    });
    match r {
        Err(m) => panicked(m),
        Ok(Err(_)) => json!({"k": "err", "v": []}),
        Ok(Ok(v)) => json!({"k": "ok", "v": v}),
    }
}

/// Everything of a file that the command-line tool shows.
pub fn library(case: &Value) -> Value {
    let points = case["points"].as_bool().unwrap_or(true);
    let fl = Flaky::new(bytes(&case["data"]), &json!({}));
    let r = guard(|| match from_reader(fl) {
        Err(e) => json!({"open": gerr(&e)}),
        Ok(g) => {
            let sections: Vec<_> = g.sections().map(|s| json!([s.num, s.offset, s.size])).collect();
            let tmpls: Vec<_> = g.list_templates().iter().map(|t| json!([t.to_string(), t.describe()])).collect();
            let mut subs = Vec::new();
            let mut it = g.iter();
            while let Some((i, s)) = it.next() {
                let mut v = sub(i.0, i.1, &s, points);
                v["values"] = if points { values(s) } else { json!({"k": "unread", "v": []}) };
                subs.push(v);
            }
            json!({"open": {"k": "ok"}, "sections": sections, "tmpls": tmpls, "subs": subs})
        }
    });
    r.unwrap_or_else(|m| json!({"open": panicked(m)}))
}
