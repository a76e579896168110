use grib::{from_reader, Grib2SectionStream, Grib2SubmessageDecoder, Grib2SubmessageStream, SeekableGrib2Reader};
use serde_json::{json, Value};

use crate::{
    decode::fbits,
    flaky::Flaky,
    util::{bytes, gerr, guard, panicked},
};

const CAP: usize = 200_000;

type Op = (String, usize);

/// Drives iterators through a list of operations.  `make` gives a new one, `dup` another one like the
/// given one (whose moves so far are given).
fn drive<I, T>(ops: &[Op], make: impl Fn() -> I, dup: impl Fn(&I, &[Op]) -> I, show: impl Fn(T) -> String) -> Value
where
    I: Iterator<Item = T>,
{
    let one = |x: Option<T>| x.map(|x| vec![show(x)]).unwrap_or_default();
    let mut seq = Vec::new();
    let mut out: Vec<Value> = Vec::new();
    let r = guard(|| {
        let mut it = make();
        while let Some(x) = it.next() {
            seq.push(show(x));
            if seq.len() > CAP {
                return;
            }
        }
        let mut its = vec![(make(), Vec::new())];
        let mut cur = 0;
        for (name, n) in ops {
            let n = *n;
            let new = |its: &Vec<(I, Vec<Op>)>| dup(&its[cur].0, &its[cur].1);
            let v = match name.as_str() {
                "next" | "nth" | "skip" => {
                    let (it, h) = &mut its[cur];
                    h.push((name.clone(), n));
                    json!(one(step(it, name, n)))
                }
                "hint" => {
                    let (a, b) = its[cur].0.size_hint();
                    json!([a, b.map(|x| x as i64).unwrap_or(-1)])
                }
                "clone" => {
                    let c = new(&its);
                    let h = its[cur].1.clone();
                    its.push((c, h));
                    json!([its.len() - 1])
                }
                "use" => {
                    cur = n % its.len();
                    json!([cur])
                }
                "count" => json!([new(&its).count()]),
                "last" => json!(one(new(&its).last())),
                "collect" => json!(new(&its).collect::<Vec<_>>().into_iter().map(&show).collect::<Vec<_>>()),
                "each" => {
                    let mut v = Vec::new();
                    new(&its).for_each(|x| v.push(show(x)));
                    json!(v)
                }
                "drop" => json!(new(&its).skip(n).map(&show).collect::<Vec<_>>()),
                "take" => json!(new(&its).take(n).map(&show).collect::<Vec<_>>()),
                "step" => {
                    let mut v = Vec::new();
                    let mut st = new(&its).step_by(n);
                    for _ in 0..12 {
                        match st.next() {
                            None => break,
                            Some(x) => v.push(show(x)),
                        }
                    }
                    json!(v)
                }
                o => json!([format!("badop {o}")]),
            };
            out.push(v);
        }
    });
    let res = match r {
        Ok(()) => json!({"k": "ok"}),
        Err(m) => panicked(m),
    };
    json!({"res": res, "seq": seq, "out": out})
}

fn step<I: Iterator>(it: &mut I, name: &str, n: usize) -> Option<I::Item> {
    match name {
        "next" => it.next(),
        "nth" => it.nth(n),
        _ => it.by_ref().skip(n).next(),
    }
}

/// another one like it, by going the same way
fn again<I: Iterator>(mut it: I, moves: &[Op]) -> I {
    for (name, n) in moves {
        step(&mut it, name, *n);
    }
    it
}

/// Histories of operations on the iterator `what` of a file.
pub fn seqops(case: &Value) -> Value {
    let data = bytes(&case["data"]);
    let ops: Vec<Op> = case["ops"].as_array().unwrap().iter().map(|o| (o[0].as_str().unwrap().to_owned(), crate::util::many(&o[1]))).collect();
    let fl = || Flaky::new(data.clone(), &json!({}));
    let what = case["what"].as_str().unwrap();
    let sect = |s: &grib::SectionInfo| format!("{} {} {}", s.num, s.offset, s.size);
    if what == "sections" {
        let make = || Grib2SectionStream::new(SeekableGrib2Reader::new(fl()));
        return drive(&ops, make, |_, h| again(make(), h), |s| s.map(|s| sect(&s)).unwrap_or("error".into()));
    }
    if what == "stream" {
        let make = || Grib2SubmessageStream::new(Grib2SectionStream::new(SeekableGrib2Reader::new(fl())));
        return drive(&ops, make, |_, h| again(make(), h), |s| s.map(|(m, k, s)| format!("{m} {k} {}", sect(&s.4))).unwrap_or("error".into()));
    }
    let g = match guard(|| from_reader(fl())) {
        Err(m) => return json!({"res": panicked(m)}),
        Ok(Err(e)) => return json!({"res": gerr(&e)}),
        Ok(Ok(g)) => g,
    };
    if what == "listed" {
        return drive(&ops, || g.sections(), |it, _| it.clone(), |s| sect(s));
    }
    if what == "submessages" {
        return drive(&ops, || g.iter(), |_, h| again(g.iter(), h), |((m, k), s)| format!("{m} {k} {}", sect(s.4.body)));
    }
    let sub = || g.iter().next().expect("submessage").1;
    let r = guard(|| match what {
        "ij" => Ok(drive(&ops, || sub().ij().unwrap(), |it, _| it.clone(), |(i, j)| format!("{i} {j}"))),
        "latlons" => {
            let _ = sub().latlons()?;
            Ok(drive(&ops, || sub().latlons().unwrap(), |it, _| it.clone(), |(a, b)| format!("{} {}", fbits(a), fbits(b))))
        }
        _ => {
            let d = Grib2SubmessageDecoder::from(sub())?;
            let _ = d.dispatch()?;
            Ok(drive(&ops, || d.dispatch().unwrap(), |_, h| again(d.dispatch().unwrap(), h), |v| fbits(v).to_string()))
        }
    });
    match r {
        Err(m) => json!({"res": panicked(m)}),
        Ok(Err::<_, grib::GribError>(e)) => json!({"res": gerr(&e)}),
        Ok(Ok(v)) => v,
    }
}
