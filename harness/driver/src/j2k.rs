use serde_json::{json, Value};

use crate::util::hex;

/// Encodes samples as a lossless JPEG 2000 code stream.
pub fn j2kenc(case: &Value) -> Value {
    use openjpeg_sys as opj;
    use std::os::raw::c_void;
    let (w, h) = (case["w"].as_u64().unwrap() as u32, case["h"].as_u64().unwrap() as u32);
    let prec = case["prec"].as_u64().unwrap() as u32;
    let ncomp = case["ncomp"].as_u64().unwrap_or(1) as u32;
    let sgnd = case["sgnd"].as_u64().unwrap_or(0) as u32;
    let sub = case["sub"].as_u64().unwrap_or(1) as u32;
    let x0 = case["x0"].as_u64().unwrap_or(0) as u32;
    let y0 = case["y0"].as_u64().unwrap_or(0) as u32;
    let vals: Vec<i32> = case["vals"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap() as i32).collect();

    unsafe extern "C" fn wr(buf: *mut c_void, n: usize, ud: *mut c_void) -> usize {
        let v = &mut *(ud as *mut (Vec<u8>, usize));
        let s = std::slice::from_raw_parts(buf as *const u8, n);
        let end = v.1 + n;
        if v.0.len() < end {
            v.0.resize(end, 0);
        }
        v.0[v.1..end].copy_from_slice(s);
        v.1 = end;
        n
    }
    unsafe extern "C" fn sk(off: i64, ud: *mut c_void) -> i32 {
        let v = &mut *(ud as *mut (Vec<u8>, usize));
        v.1 = off as usize;
        1
    }
    unsafe extern "C" fn skip(off: i64, ud: *mut c_void) -> i64 {
        let v = &mut *(ud as *mut (Vec<u8>, usize));
        v.1 = (v.1 as i64 + off) as usize;
        off
    }
    let mut out: (Vec<u8>, usize) = (Vec::new(), 0);
    let ok = unsafe {
        let mut p = std::mem::zeroed::<opj::opj_cparameters>();
        opj::opj_set_default_encoder_parameters(&mut p);
        p.tcp_numlayers = 1;
        p.tcp_rates[0] = 0.0;
        p.cp_disto_alloc = 1;
        // no more decomposition levels than the image can hold
        let mut levels = 1;
        while levels < 6 && (1 << levels) <= w.min(h) {
            levels += 1;
        }
        p.numresolution = levels;
        let mut cmpt: Vec<opj::opj_image_comptparm> = (0..ncomp)
            .map(|_| {
                let mut c = std::mem::zeroed::<opj::opj_image_comptparm>();
                c.dx = sub;
                c.dy = sub;
                c.w = w;
                c.h = h;
                c.x0 = x0;
                c.y0 = y0;
                c.prec = prec;
                c.bpp = prec;
                c.sgnd = sgnd;
                c
            })
            .collect();
        let cs = if ncomp == 1 { opj::OPJ_COLOR_SPACE::OPJ_CLRSPC_GRAY } else { opj::OPJ_COLOR_SPACE::OPJ_CLRSPC_SRGB };
        let img = opj::opj_image_create(ncomp, cmpt.as_mut_ptr(), cs);
        (*img).x0 = x0;
        (*img).y0 = y0;
        (*img).x1 = x0 + (w - 1) * sub + 1;
        (*img).y1 = y0 + (h - 1) * sub + 1;
        for k in 0..ncomp as usize {
            let comp = &*(*img).comps.add(k);
            for (i, v) in vals.iter().enumerate() {
                *comp.data.add(i) = *v;
            }
        }
        let codec = opj::opj_create_compress(opj::OPJ_CODEC_FORMAT::OPJ_CODEC_J2K);
        let mut ok = opj::opj_setup_encoder(codec, &mut p, img) == 1;
        let st = opj::opj_stream_default_create(0);
        opj::opj_stream_set_write_function(st, Some(wr));
        opj::opj_stream_set_seek_function(st, Some(sk));
        opj::opj_stream_set_skip_function(st, Some(skip));
        opj::opj_stream_set_user_data(st, &mut out as *mut _ as *mut c_void, None);
        ok = ok && opj::opj_start_compress(codec, img, st) == 1;
        ok = ok && opj::opj_encode(codec, st) == 1;
        ok = ok && opj::opj_end_compress(codec, st) == 1;
        opj::opj_stream_destroy(st);
        opj::opj_destroy_codec(codec);
        opj::opj_image_destroy(img);
        ok
    };
    if ok {
        json!({ "j2k": hex(&out.0) })
    } else {
        json!({"bad": "encoder"})
    }
}
