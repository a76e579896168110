use std::io::{Read, Seek, SeekFrom};

use grib::{
    from_reader, Grib2, Grib2Read, Grib2SectionStream, Grib2SubmessageStream, Indicator,
    ParseError, SectionBody, SectionInfo, SeekableGrib2Reader, Submessage,
};
use serde_json::{json, Value};

use crate::{
    flaky::Flaky,
    util::{bytes, gerr, guard, panicked, perr},
};

const CAP: usize = 4000;

fn sect(s: &SectionInfo) -> Value {
    let b = match &s.body {
        None => -1,
        Some(SectionBody::Section0(_)) => 0,
        Some(SectionBody::Section1(_)) => 1,
        Some(SectionBody::Section2(_)) => 2,
        Some(SectionBody::Section3(_)) => 3,
        Some(SectionBody::Section4(_)) => 4,
        Some(SectionBody::Section5(_)) => 5,
        Some(SectionBody::Section6(_)) => 6,
        Some(SectionBody::Section7) => 7,
    };
    json!({"k": "sect", "num": s.num, "off": s.offset, "size": s.size, "b": b})
}

/// All items of a section stream up to and including the first error, plus the end.
pub fn sections(case: &Value) -> Value {
    let fl = Flaky::new(bytes(&case["data"]), case);
    let c = fl.counters.clone();
    let mut items = Vec::new();
    let r = guard(|| {
        let mut s = Grib2SectionStream::new(SeekableGrib2Reader::new(fl));
        loop {
            match s.next() {
                None => {
                    items.push(json!({"k": "end"}));
                    break;
                }
                Some(Ok(i)) => items.push(sect(&i)),
                Some(Err(e)) => {
                    items.push(perr(&e));
                    break;
                }
            }
            if items.len() > CAP {
                items.push(json!({"k": "toolong"}));
                break;
            }
        }
    });
    if let Err(m) = r {
        items.push(panicked(m));
    }
    json!({"items": items, "reads": c.reads.get(), "seeks": c.seeks.get(), "faults": c.faults.get()})
}

fn sub(mi: usize, si: usize, s: &Submessage) -> Value {
    let o = |x: &SectionInfo| json!([x.num, x.offset, x.size]);
    json!({"k": "sub", "m": mi, "s": si, "parts": [
        o(&s.0), o(&s.1), s.2.as_ref().map(o).unwrap_or(json!([])), o(&s.3), o(&s.4), o(&s.5),
        o(&s.6), o(&s.7), o(&s.8)]})
}

fn drain<I: Iterator<Item = Result<(usize, usize, Submessage), ParseError>>>(
    mut st: I,
    after: usize,
    items: &mut Vec<Value>,
) {
    loop {
        match st.next() {
            None => {
                items.push(json!({"k": "end"}));
                break;
            }
            Some(Ok((m, s, x))) => items.push(sub(m, s, &x)),
            Some(Err(e)) => {
                items.push(perr(&e));
                // what is delivered after an error
                for _ in 0..after {
                    match st.next() {
                        None => items.push(json!({"k": "end"})),
                        Some(Ok((m, s, x))) => items.push(sub(m, s, &x)),
                        Some(Err(e)) => items.push(perr(&e)),
                    }
                }
                break;
            }
        }
        if items.len() > CAP {
            items.push(json!({"k": "toolong"}));
            break;
        }
    }
}

/// Items of a submessage stream over a file.
pub fn submessages(case: &Value) -> Value {
    let fl = Flaky::new(bytes(&case["data"]), case);
    let c = fl.counters.clone();
    let after = case["after"].as_u64().unwrap_or(2) as usize;
    let mut items = Vec::new();
    let r = guard(|| {
        let s = Grib2SectionStream::new(SeekableGrib2Reader::new(fl));
        drain(Grib2SubmessageStream::new(s), after, &mut items)
    });
    if let Err(m) = r {
        items.push(panicked(m));
    }
    json!({"items": items, "reads": c.reads.get(), "seeks": c.seeks.get(), "faults": c.faults.get()})
}

/// Submessage stream over a given sequence of section numbers (99 = read error).
/// Section i gets offset i*10 and size i+1, so every part is recognisable.
pub fn grouping(case: &Value) -> Value {
    let nums: Vec<u64> = case["seq"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
    let after = case["after"].as_u64().unwrap_or(2) as usize;
    let mut items = Vec::new();
    let r = guard(|| {
        let it = nums.iter().enumerate().map(|(i, &n)| {
            if n == 99 {
                Err(ParseError::ReadError("injected".into()))
            } else {
                Ok(SectionInfo { num: n as u8, offset: i * 10, size: i + 1, body: None })
            }
        });
        drain(Grib2SubmessageStream::new(it), after, &mut items)
    });
    if let Err(m) = r {
        items.push(panicked(m));
    }
    json!({ "items": items })
}

/// from_reader: cached sections and the index of submessages.
pub fn open(case: &Value) -> Value {
    let fl = Flaky::new(bytes(&case["data"]), case);
    let c = fl.counters.clone();
    // the same bytes as a slice
    if case["slice"].as_bool().unwrap_or(false) {
        let b = bytes(&case["data"]);
        let mut v = guard(|| opened(grib::from_slice(&b))).unwrap_or_else(|m| json!({"res": panicked(m)}));
        v["reads"] = json!(0);
        v["seeks"] = json!(0);
        v["faults"] = json!(0);
        return v;
    }
    let r = guard(|| opened(from_reader(fl)));
    let mut v = r.unwrap_or_else(|m| json!({"res": panicked(m)}));
    v["reads"] = json!(c.reads.get());
    v["seeks"] = json!(c.seeks.get());
    v["faults"] = json!(c.faults.get());
    v
}

fn opened<R: grib::Grib2Read>(r: Result<grib::Grib2<R>, grib::GribError>) -> Value {
    match r {
        Err(e) => json!({"res": gerr(&e)}),
        Ok(g) => {
            let sects: Vec<Value> = g.sections().map(sect).collect();
            let mut subs = Vec::new();
            for ((m, s), x) in g.iter() {
                subs.push(json!([
                    m, s, x.0.index, x.1.index, x.2.as_ref().map(|q| q.index as i64).unwrap_or(-1),
                    x.3.index, x.4.index, x.5.index, x.6.index, x.7.index, x.8.index
                ]));
                if subs.len() > CAP {
                    break;
                }
            }
            let tmpl: Vec<Value> = g
                .list_templates()
                .iter()
                .map(|t| json!([t.0, t.1, t.describe().unwrap_or("-".into())]))
                .collect();
            json!({"res": {"k": "ok"}, "len": g.len(), "empty": g.is_empty(), "sects": sects, "subs": subs, "tmpl": tmpl})
        }
    }
}

/// A reader type that is `Clone`, as cloning a submessage iterator asks for (the
/// iterator only clones its reference to the file, so this is never called).
struct Cl(SeekableGrib2Reader<Flaky>);
impl Clone for Cl {
    fn clone(&self) -> Self {
        unreachable!("the reader itself is never cloned")
    }
}
impl Read for Cl {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(buf)
    }
}
impl Seek for Cl {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(pos)
    }
}
impl Grib2Read for Cl {
    fn read_sect0(&mut self) -> Result<Option<(usize, Indicator)>, ParseError> {
        self.0.read_sect0()
    }
    fn read_sect8(&mut self) -> Result<Option<()>, ParseError> {
        self.0.read_sect8()
    }
    fn read_sect_header(&mut self) -> Result<Option<(usize, u8)>, ParseError> {
        self.0.read_sect_header()
    }
    fn read_sect_payload(&mut self, h: &(usize, u8)) -> Result<SectionBody, ParseError> {
        self.0.read_sect_payload(h)
    }
    fn read_sect_payload_as_slice(&mut self, s: &SectionInfo) -> Result<Box<[u8]>, ParseError> {
        self.0.read_sect_payload_as_slice(s)
    }
    fn read_sect6_payload(&mut self, n: usize) -> Result<SectionBody, ParseError> {
        self.0.read_sect6_payload(n)
    }
    fn skip_sect7_payload(&mut self, n: usize) -> Result<SectionBody, ParseError> {
        self.0.skip_sect7_payload(n)
    }
    fn read_slice_without_offset_check(&mut self, n: usize) -> Result<Box<[u8]>, ParseError> {
        self.0.read_slice_without_offset_check(n)
    }
}

/// Drives the submessage iterator through a list of operations.
/// ops: ["next"], ["nth",n], ["hint"], ["clone"] (push a clone), ["use",k] (switch to clone k),
///      ["reborrow"] (at most 12 of &it), ["skip",n], ["step",n] (collect at most 6 of by_ref().step_by(n)), ["count"], ["last"]
pub fn iterops(case: &Value) -> Value {
    let fl = Flaky::new(bytes(&case["data"]), &json!({}));
    let ops = case["ops"].as_array().unwrap();
    let mut out = Vec::new();
    let r = guard(|| {
        let g = match Grib2::<Cl>::read(Cl(SeekableGrib2Reader::new(fl))) {
            Err(e) => {
                out.push(gerr(&e));
                return;
            }
            Ok(g) => g,
        };
        let idx = |x: Option<((usize, usize), grib::SubMessage<_>)>| match x {
            None => json!([]),
            // identify by its product section, and report the message index too
            Some(((m, s), x)) => json!([x.4.body.offset, m, s]),
        };
        let mut its = vec![match case["via"].as_str().unwrap_or("iter") {
            "submessages" => g.submessages(),
            "into" => (&g).into_iter(),
            _ => g.iter(),
        }];
        let mut cur = 0;
        for op in ops {
            let n = crate::util::many(&op[1]);
            let v = match op[0].as_str().unwrap() {
                "next" => idx(its[cur].next()),
                "nth" => idx(its[cur].nth(n)),
                "hint" => {
                    let (a, b) = its[cur].size_hint();
                    json!([a, b.map(|x| x as i64).unwrap_or(-1)])
                }
                "clone" => {
                    let c = its[cur].clone();
                    its.push(c);
                    json!([its.len() - 1])
                }
                "reborrow" => {
                    let mut v = Vec::new();
                    for x in &its[cur] {
                        v.push(idx(Some(x)));
                        if v.len() >= 12 {
                            break;
                        }
                    }
                    json!(v)
                }
                "use" => {
                    cur = n % its.len();
                    json!([cur])
                }
                "skip" => idx(its[cur].by_ref().skip(n).next()),
                "step" => {
                    let mut v = Vec::new();
                    let mut st = its[cur].clone().step_by(n);
                    for _ in 0..12 {
                        match st.next() {
                            None => break,
                            x => v.push(idx(x)),
                        }
                    }
                    json!(v)
                }
                "count" => {
                    let mut k = 0;
                    for _ in its[cur].clone() {
                        k += 1;
                        if k > CAP {
                            break;
                        }
                    }
                    // and by the iterator's own word
                    json!([if k > CAP || its[cur].clone().count() == k { k as i64 } else { -1 }])
                }
                "last" => {
                    let mut l = json!([]);
                    for x in its[cur].clone() {
                        l = idx(Some(x));
                    }
                    if idx(its[cur].clone().last()) == l {
                        l
                    } else {
                        json!(["last differs"])
                    }
                }
                o => json!([format!("badop {o}")]),
            };
            out.push(v);
        }
    });
    match r {
        Ok(()) => json!({ "out": out }),
        Err(m) => json!({ "out": out, "panic": m }),
    }
}

/// Reads a file on disk from an offset: its sections, and what an open file lists; decodes
/// the submessages asked for.
pub fn bigfile(case: &Value) -> Value {
    use std::{fs::File, io::{BufReader, Seek, SeekFrom}};
    let open = || {
        let mut f = BufReader::new(File::open(case["path"].as_str().expect("path")).expect("file"));
        f.seek(SeekFrom::Start(case["start"].as_u64().unwrap_or(0))).expect("seek");
        f
    };
    let sect = |s: &grib::SectionInfo| json!([s.num.to_string(), s.offset.to_string(), s.size.to_string()]);
    let max = case["max"].as_u64().unwrap_or(1 << 20) as usize;
    let r = guard(|| {
        let mut items = Vec::new();
        for s in Grib2SectionStream::new(SeekableGrib2Reader::new(open())).take(max) {
            items.push(match s {
                Ok(s) => sect(&s),
                Err(_) => json!(["error"]),
            });
        }
        match from_reader(open()) {
            Err(e) => json!({"items": items, "listed": [gerr(&e).to_string()], "subs": [], "vals": []}),
            Ok(g) => {
                let listed: Vec<_> = g.sections().map(sect).collect();
                let subs: Vec<_> = g.iter().map(|((m, k), s)| json!([m, k, s.indicator().total_length.to_string()])).collect();
                let want: Vec<usize> = case["decode"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default();
                let mut vals = Vec::new();
                let mut it = g.iter();
                let mut k = 0;
                while let Some((_, s)) = it.next() {
                    if want.contains(&k) {
                        vals.push(match grib::Grib2SubmessageDecoder::from(s) {
                            Err(e) => json!({"res": gerr(&e)}),
                            Ok(d) => match d.dispatch() {
                                Err(e) => json!({"res": gerr(&e)}),
                                Ok(v) => {
                                    let v: Vec<_> = v.take(10_000).map(crate::decode::fbits).collect();
                                    json!({"res": {"k": "ok"}, "n": v.len(), "vals": v, "hints": [], "after": []})
                                }
                            },
                        });
                    }
                    k += 1;
                }
                json!({"items": items, "listed": listed, "subs": subs, "vals": vals})
            }
        }
    });
    r.unwrap_or_else(|m| json!({"items": [["panic"]], "listed": [], "subs": [], "vals": [], "panic": panicked(m)}))
}
