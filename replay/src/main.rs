//! Bounded stand-in and counterexample search for the properties in ../properties.jsonl.
//!
//! replay run --prop C05 --seed 1 --ms 2000 --out FILE   search; exit 1 and FILE on a violation
//! replay case --prop C05 --case-seed N                   one case again
mod dec;
mod enc;
mod model;
mod util;
use dec::*;
use gif::streaming_decoder::*;
use gif::*;
use model::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static A: util::Track = util::Track;

pub struct Outcome { bad: Bad, desc: String, nontrivial: bool, key: u64 }

fn hash(b: &[u8]) -> u64 { let mut h = 0xcbf2_9ce4_8422_2325u64; for x in b { h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3); } h }

thread_local! { static DESC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// description of the case in progress, for panics and hangs
fn describe(s: String) { DESC.with(|d| *d.borrow_mut() = s); }

fn bias_for(p: &str) -> Bias {
    let mut b = Bias::plain();
    match p {
        "C01" | "C02" => { b.bad_lzw = true; b.mutate = true; b.unknown = true; b.zero_area = true; b.bounds = false; b.no_end = 3; b.short = 4; }
        "C03" => { b.mutate = true; b.unknown = true; b.bad_lzw = true; b.max_side = 14; }
        "C04" => { b.frames = 1; b.max_side = 3; }
        "C05" => { b.max_side = 6; b.interlace = 2; }
        "C06" => { b.exts = 4; b.max_side = 4; b.frames = 5; b.unknown = true; }
        "C07" => { b.netscape = true; b.exts = 4; b.max_side = 3; b.frames = 2; b.unknown = true; }
        "C08" => { b.bounds = true; b.max_side = 5; b.exts = 1; }
        "C09" => { b.big_ext = true; b.max_side = 40; }
        "C10" => { b.interlace = 1; b.max_side = 40; b.exts = 1; b.errors = false; }
        "C11" => { b.max_side = 16; b.exts = 2; b.interlace = 5; }
        "C12" => { b.short = 3; b.long = 3; b.no_end = 4; b.max_side = 40; b.exts = 1; }
        "C13" => { b.no_end = 0; b.max_side = 30; b.exts = 2; b.zero_area = false; }
        "C14" => { b.no_end = 3; b.short = 6; b.long = 3; b.max_side = 26; b.frames = 4; b.exts = 1; }
        "C15" => { b.unknown = true; b.exts = 4; b.max_side = 5; b.mutate = false; }
        "C16" => { b.mutate = false; b.max_side = 8; }
        "C17" => { b.mutate = true; b.max_side = 8; b.zero_area = true; }
        _ => {}
    }
    b
}

fn decode_case(prop: &str, rng: &mut Rng) -> Outcome {
    let mut b = bias_for(prop);
    if rng.chance(1, 10) { b.errors = !b.errors; }
    let mut d = gen_gif(rng, &b);
    if prop == "C10" && rng.chance(1, 12) { d = tall(rng); }
    let mut o = gen_opts(rng);
    match prop {
        "C03" | "C17" | "C01" | "C02" => {}
        "C04" | "C05" | "C06" | "C07" | "C15" => { if rng.chance(1, 2) { o = Opts { unknown: o.unknown, skip: o.skip, ..Opts::default_opts() } } }
        "C08" => { o.bounds = rng.chance(3, 4); o.limit = None; o.skip = rng.chance(1, 3); o.unknown = false; o.end_code = false }
        "C09" => { o.bounds = false; o.end_code = false; o.limit = Some(match rng.below(4) { 0 => rng.range(1, 6000) as u64, 1 => rng.range(1, 300) as u64, 2 => { let s = rng.range(1, 40) * rng.range(1, 40); (s * if o.rgba { 4 } else { 1 }) as u64 + rng.below(3) }, _ => 100_000 }); if rng.chance(1, 4) { exact_limit(&d, &mut o, rng); } }
        "C10" => { o.limit = None; o.skip = false; o.bounds = false; o.end_code = rng.chance(1, 6) }
        "C11" => { o.rgba = true; o.limit = None; o.skip = false; o.bounds = false; o.end_code = rng.chance(1, 6) }
        "C12" => { o.limit = None; o.skip = false; o.bounds = false; o.end_code = rng.chance(1, 6) }
        "C13" => { o.limit = None; o.bounds = false; o.skip = true; }
        "C14" => { o.limit = None; o.bounds = false; o.end_code = rng.chance(3, 4); o.skip = false }
        "C16" => { o.limit = if rng.chance(1, 2) { None } else { Some(50_000_000) }; o.bounds = false; }
        _ => {}
    }
    // huge frames only measure the page fault rate
    if o.limit.is_none() {
        let huge = ref_parse(&d, &Opts { limit: None, bounds: false, ..o.clone() }).map_or(false, |g| g.items.iter().any(|i| matches!(i, Item::Image(m) if usize::from(m.w) * usize::from(m.h) > 1 << 22)));
        if huge { if matches!(prop, "C01" | "C02" | "C03" | "C09" | "C16" | "C17") { o.limit = Some(40_000_000); } else { return Outcome { bad: vec![], desc: String::new(), nontrivial: false, key: 0 } } }
    }
    let plan = gen_plan(rng);
    let modes = if prop == "C09" && rng.chance(3, 4) { vec![Mode::Read] } else { gen_modes(rng) };
    if prop == "C16" || prop == "C12" && rng.chance(1, 4) {
        if rng.chance(2, 3) { let n = rng.below(d.len() as u64 + 1) as usize; d.truncate(n); }
    }
    let fail = if prop == "C16" && rng.chance(1, 3) { Some((rng.below(d.len() as u64 + 1) as usize, *rng.pick(&[io::ErrorKind::Other, io::ErrorKind::ConnectionReset, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidInput]))) } else { None };
    describe(format!("input {}\noptions {o:?}\nreads {plan:?}\nframe access {modes:?}\nreader error {fail:?}", hex(&d)));
    let mut bad: Bad = vec![];
    let mut nontrivial = false;
    let key = hash(&d) ^ hash(format!("{o:?}{plan:?}{modes:?}{fail:?}").as_bytes());
    match prop {
        "C01" => { fuzz(&d, &o, &plan, &modes, rng, &mut bad); nontrivial = d.len() > 13; }
        "C02" => {
            let ob = drive(&d, &o, &plan, &modes, fail);
            if ob.end == End::Capped { bad.push((vec!["C02"], "300 frames and no end".into())); }
            let outs: Vec<usize> = (0..3).map(|_| if rng.chance(1, 3) { 0 } else { rng.range(1, 50) }).collect();
            let mut d2 = d.clone();
            let s = stream(&d, &plan, &outs);
            if let Some(x) = s.stall { bad.push((vec!["C02"], format!("{x} (output sizes {outs:?})"))); }
            if rng.chance(1, 2) { let n = rng.range(1, 40); d2.extend(rng.bytes(n)); let s = stream(&d2, &plan, &outs); if let Some(x) = s.stall { bad.push((vec!["C02"], format!("{x} (output sizes {outs:?}, followed by {n} bytes)"))); } }
            nontrivial = d.len() > 13;
        }
        "C03" => {
            // pieces handed out before the end of the image data arrived are not part of the result
            let modes: Vec<Mode> = modes.into_iter().map(|m| match m { Mode::Fill(_) | Mode::Partial(_) if b.bad_lzw => Mode::Into, m => m }).collect();
            let a = drive(&d, &o, &[], &modes, None);
            let c = drive(&d, &o, &plan, &modes, None);
            let norm = |x: &Obs| { let mut x = x.clone(); x.max_alloc = 0; if !matches!(x.end, End::Trailer) { x.again.clear(); } x };
            let (mut a, mut c) = (norm(&a), norm(&c));
            // a frame that is cut off by the end of the input may or may not be delivered
            let whole = ref_parse(&d, &o).map_or(0, |g| g.items.iter().filter(|i| matches!(i, Item::Image(m) if m.complete)).count());
            if a.end.eof() || c.end.eof() { a.frames.truncate(whole); c.frames.truncate(whole); a.meta_only = None; c.meta_only = None; }
            nontrivial = !a.frames.is_empty() && !plan.is_empty();
            // nothing is promised about image data with an invalid LZW code and what follows it
            let good = good_images(&d, &o);
            let (mut a, mut c) = (a, c);
            if good < usize::MAX { for x in [&mut a, &mut c] { x.frames.truncate(good); x.end = End::Trailer; x.again.clear(); x.meta_only = None; } }
            if a != c { bad.push((vec!["C03"], diff(&a, &c))); }
            if !has_bad_lzw(&d) {
                let (x, y) = (stream(&d, &[], &[64]), stream(&d, &plan, &[7, 300, 1]));
                let cut = |v: &SObs| -> Vec<Ev> { let mut e = v.evs.clone(); if matches!(e.last(), Some(Ev::Px(_))) { e.pop(); } e };
                if cut(&x) != cut(&y) || (x.version, x.w, x.h) != (y.version, y.w, y.h) { let (x, y) = (cut(&x), cut(&y)); let k = x.iter().zip(&y).take_while(|(a, b)| a == b).count(); bad.push((vec!["C03"], format!("event {k}: whole {:?}, in pieces {:?}", x.get(k), y.get(k)))); }
            }
        }
        "C17" => iterate(&d, &o, &plan, &mut bad, &mut nontrivial),
        _ => {
            let ob = drive(&d, &o, &plan, &modes, fail);
            let seen = match fail { Some((p, _)) => &d[..p.min(d.len())], None => &d[..] };
            let ex = expect(seen, &o, &modes);
            nontrivial = !ex.frames.is_empty() || matches!(prop, "C04" | "C07" | "C15" | "C16");
            bad = compare(&ob, &ex, &o, fail.map(|f| f.1));
            if prop == "C09" {
                if let Some(l) = o.limit { let cap = (2 * l as usize).max(1 << 17); if ob.max_alloc > cap { bad.push((vec!["C09"], format!("allocated {} bytes at once with a limit of {l}", ob.max_alloc))); } }
            }
            if prop == "C13" { skipped(&d, &o, &mut bad); }
            if prop == "C14" { end_code(&d, &o, &plan, &modes, &mut bad); }
            if matches!(prop, "C04" | "C05" | "C06" | "C07" | "C12" | "C15" | "C16") && fail.is_none() {
                let all = rng.chance(2, 3);
                let (want, exact) = stream_expect(&d, true);
                if all || !want.iter().any(|e| matches!(e, Ev::Px(_))) {
                    let outs = [rng.range(1, 400), rng.range(1, 9)];
                    let s = stream(&d, &plan, &outs);
                    bad.extend(stream_compare(&s, &want, exact));
                    if let (Ok(g), true) = (ref_parse(&d, &Opts::default_opts()), d.len() > 13) { if s.version != g.v89 || s.w != g.w || s.h != g.h { bad.push((vec!["C04"], format!("version89a {} {}x{}", s.version, s.w, s.h))); } }
                }
            }
        }
    }
    // wrong pixels of interlaced frames are C10's and C12's business
    if prop == "C10" && d.len() > 10 { for x in &mut bad { if x.0.contains(&"C10i") { x.0.push("C10") } } }
    Outcome { bad, desc: DESC.with(|d| d.borrow().clone()), nontrivial, key }
}

/// number of images before the first with an invalid LZW code
fn good_images(d: &[u8], o: &Opts) -> usize {
    let o = Opts { limit: None, ..o.clone() };
    ref_parse(d, &o).map_or(usize::MAX, |g| g.items.iter().filter_map(|i| if let Item::Image(m) = i { Some(m) } else { None }).position(|im| !(2..=8).contains(&im.min) || lzw_decode(im.min, &im.lzw, 3 << 20).1 == LzwEnd::Bad).unwrap_or(usize::MAX))
}

fn has_bad_lzw(d: &[u8]) -> bool {
    ref_parse(d, &Opts::default_opts()).map_or(false, |g| g.items.iter().any(|i| matches!(i, Item::Image(im) if !(2..=8).contains(&im.min) || lzw_decode(im.min, &im.lzw, 3 << 20).1 == LzwEnd::Bad)))
}

/// limit equal to (or one less than) the size of some frame or payload
fn exact_limit(d: &[u8], o: &mut Opts, rng: &mut Rng) {
    let Ok(g) = ref_parse(d, &Opts { limit: None, ..o.clone() }) else { return };
    let mut v = vec![];
    for i in &g.items {
        match i {
            Item::Image(m) => v.push(if o.skip { m.lzw.len() + 1 } else { usize::from(m.w) * usize::from(m.h) * if o.rgba { 4 } else { 1 } }),
            Item::Ext { subs, .. } => v.push(subs.concat().len() + 1),
            _ => {}
        }
    }
    if !v.is_empty() { let x = *rng.pick(&v) as u64; o.limit = Some((x + 1 - rng.below(2)).max(1)); if rng.chance(1, 2) { o.limit = Some(x.max(1)); } }
}

fn tall(rng: &mut Rng) -> Vec<u8> {
    let (w, h) = (rng.range(1, 2) as u16, if rng.chance(1, 3) { rng.range(65000, 65535) } else { rng.range(1, 4000) } as u16);
    let mut v = b"GIF89a\x01\x00\x01\x00\x80\x00\x00\0\0\0\xff\xff\xff\x2c\0\0\0\0".to_vec();
    v.extend(w.to_le_bytes()); v.extend(h.to_le_bytes());
    v.push(0x40); v.push(8);
    let px: Vec<u8> = (0..usize::from(w) * usize::from(h)).map(|i| (i % 251) as u8 ^ (i >> 8) as u8).collect();
    let data = lzw_encode(8, &px, LzwStyle { first_clear: true, random_clears: 0, end_code: true, literals: true, deferred: false }, rng);
    for c in data.chunks(255) { v.push(c.len() as u8); v.extend(c); }
    v.extend([0, 0x3B]);
    v
}

fn diff(a: &Obs, b: &Obs) -> String {
    if a.header != b.header { return format!("header: whole {:?}, in pieces {:?}", a.header, b.header) }
    for (k, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() { if x != y { return format!("frame {k}: whole {:?} {}, in pieces {:?} {}", x.meta, short(x.data.as_deref().unwrap_or_default()), y.meta, short(y.data.as_deref().unwrap_or_default())) } }
    format!("whole: {} frames, then {:?}; in pieces: {} frames, then {:?}", a.frames.len(), a.end, b.frames.len(), b.end)
}

fn skipped(d: &[u8], o: &Opts, bad: &mut Bad) {
    let norm = Opts { skip: false, limit: None, end_code: false, ..o.clone() };
    let sk = Opts { skip: true, limit: None, end_code: false, ..o.clone() };
    let (a, b) = (drive(d, &norm, &[], &[Mode::Read], None), drive(d, &sk, &[], &[Mode::Read], None));
    let info = drive(d, &norm, &[], &[Mode::Skip], None);
    let gpal = b.header.as_ref().and_then(|h| h.gpal.clone());
    let ex = expect(d, &norm, &[Mode::Read]);
    for (k, f) in b.frames.iter().enumerate() {
        if let Some(i) = info.frames.get(k) { if i.meta != f.meta { bad.push((vec!["C13"], format!("frame {k}: metadata {:?}, normal decode {:?}", f.meta, i.meta))); return } }
        let mut dd = options(&norm);
        dd.set_memory_limit(MemoryLimit::Unlimited);
        let mut fd = FrameDecoder::new(dd);
        if let Some(p) = &gpal { fd.set_global_palette(p.clone()); }
        let m = &f.meta;
        let mut fr = Frame { delay: m.delay, transparent: m.transparent, needs_user_input: m.user, top: m.top, left: m.left, width: m.w, height: m.h, interlaced: m.interlaced, palette: m.lpal.clone(), buffer: f.data.clone().unwrap_or_default().into(), ..Frame::default() };
        if usize::from(m.w) * usize::from(m.h) > 1 << 22 { return }
        // nothing is said about image data with codes that stand for nothing
        let raw = f.data.as_deref().unwrap_or_default();
        if !raw.first().map_or(false, |m| (2..=8).contains(m)) || lzw_decode(raw[0], &raw[1..], 3 << 20).1 == LzwEnd::Bad { return }
        match (fd.decode_lzw_encoded_frame(&mut fr), a.frames.get(k)) {
            (Ok(()), Some(n)) => if n.data.as_deref() != Some(&fr.buffer[..]) || fr.interlaced { bad.push((vec!["C13"], format!("frame {k}: decoded from its LZW buffer {}, normal decode {}", short(&fr.buffer), short(n.data.as_deref().unwrap_or_default())))); return },
            (Err(e), Some(_)) => { bad.push((vec!["C13"], format!("frame {k}: decoding the LZW buffer failed: {e}"))); return }
            (Ok(()), None) => { if k < ex.frames.len() || ex.end != WEnd::Unspecified { bad.push((vec!["C13"], format!("frame {k}: decodes from its LZW buffer only"))); } return }
            (Err(_), None) => return,
        }
    }
}

fn end_code(d: &[u8], o: &Opts, plan: &[usize], modes: &[Mode], bad: &mut Bad) {
    let Ok(g) = ref_parse(d, o) else { return };
    let mut all = true;
    for i in &g.items { if let Item::Image(m) = i { if !(2..=8).contains(&m.min) || !m.complete || lzw_decode(m.min, &m.lzw, 3 << 20).1 != LzwEnd::EndCode { all = false } } }
    if !all { return }
    let off = Opts { end_code: false, ..o.clone() };
    let (mut a, mut b) = (drive(d, o, plan, modes, None), drive(d, &off, plan, modes, None));
    a.max_alloc = 0; b.max_alloc = 0;
    if !matches!(b.end, End::Trailer) { a.again.clear(); b.again.clear(); a.end = End::Capped; b.end = End::Capped; }
    if a != b { bad.push((vec!["C14"], format!("every image has an end code; {}", diff(&a, &b).replace("whole", "check on").replace("in pieces", "check off")))); }
}

fn iterate(d: &[u8], o: &Opts, plan: &[usize], bad: &mut Bad, nontrivial: &mut bool) {
    let sig = |f: &Frame<'_>| (meta(f), f.buffer.to_vec());
    let mut want = vec![];
    let mut end = None;
    let open = || options(o).read_info(Chunks::new(d, plan));
    let Ok(mut a) = open() else { return };
    for _ in 0..200 {
        match a.read_next_frame() { Ok(Some(f)) => { want.push(sig(f)) } Ok(None) => break, Err(e) => { end = Some(e.to_string()); break } }
    }
    *nontrivial = !want.is_empty();
    let Ok(b) = open() else { bad.push((vec!["C17"], "opens only once".into())); return };
    let mut it = b.into_iter();
    for (k, w) in want.iter().enumerate() {
        match it.next() { Some(Ok(f)) => if sig(&f) != *w { bad.push((vec!["C17"], format!("frame {k} differs: {:?} {}, expected {:?} {}", meta(&f), short(&f.buffer), w.0, short(&w.1)))); return }, Some(Err(e)) => { bad.push((vec!["C17"], format!("frame {k}: error {e}"))); return } None => { bad.push((vec!["C17"], format!("iteration ends after {k} frames, reads give {}", want.len()))); return } }
    }
    match (it.next(), &end) {
        (None, None) => {}
        (Some(Err(e)), Some(m)) if e.to_string() == *m => {}
        (x, _) => { bad.push((vec!["C17"], format!("after {} frames: {:?}, reads give {end:?}", want.len(), x.map(|r| r.map(|f| meta(&f)))))); return }
    }
    for k in 0..3 { if let Some(x) = it.next() { bad.push((vec!["C17"], format!("call {k} after the end yields {:?}", x.map(|f| meta(&f))))); return } }
}

/// All interfaces in odd ways; only panics (and overlong loops) matter
fn fuzz(d: &[u8], o: &Opts, plan: &[usize], modes: &[Mode], rng: &mut Rng, bad: &mut Bad) {
    let _ = drive(d, o, plan, modes, None);
    let outs: Vec<usize> = (0..3).map(|_| rng.below(300) as usize).collect();
    let s = stream(d, plan, &outs);
    let _ = (s.is_end, bad);
    if let Ok(mut dec) = options(o).read_info(Chunks::new(d, plan)) {
        for _ in 0..40 {
            match rng.below(8) {
                0 | 1 => { let _ = dec.next_frame_info(); }
                2 => { let _ = dec.read_next_frame(); }
                3 => { let n = dec.buffer_size(); if n < 1 << 22 { let n = match rng.below(3) { 0 => n, 1 => n / 2, _ => n + rng.range(0, 40) }; let mut b = vec![0; n]; let _ = dec.read_into_buffer(&mut b); } }
                4 | 5 => { let mut b = vec![0; rng.below(90) as usize]; let _ = dec.fill_buffer(&mut b); }
                6 => { let _ = dec.palette(); let _ = dec.line_length(); let _ = dec.bg_color(); }
                _ => { let mut b = vec![0; rng.below(3) as usize]; let _ = dec.fill_buffer(&mut b); }
            }
        }
        for _ in dec.into_iter().take(30) {}
    }
    // low-level decoder, all destinations, going on after errors
    let mut s = StreamingDecoder::new();
    let mut i = 0;
    let mut v = Vec::new();
    for _ in 0..600 {
        if i >= d.len() { break }
        let n = rng.range(1, 40).min(d.len() - i);
        let mut out = vec![0; rng.below(20) as usize];
        let r = match rng.below(3) { 0 => s.update(&d[i..i + n], &mut OutputBuffer::None), 1 => s.update(&d[i..i + n], &mut OutputBuffer::Slice(&mut out)), _ => s.update(&d[i..i + n], &mut OutputBuffer::Vec(&mut v)) };
        let _ = s.last_ext();
        match r { Ok((k, e)) => { if k > n { return } if let Decoded::FrameMetadata(_) = e { let _ = s.current_frame(); } i += k } Err(_) => { i += rng.below(3) as usize } }
    }
    // frame decoder
    let mut fd = FrameDecoder::new(options(o));
    if rng.chance(1, 2) { let n = rng.below(40) as usize; fd.set_global_palette(rng.bytes(n)); }
    for _ in 0..3 {
        let n = rng.below(60) as usize;
        let mut b = rng.bytes(n);
        if rng.chance(2, 3) && n > 0 { b[0] = rng.range(1, 12) as u8 }
        let mut f = Frame { width: rng.below(9) as u16, height: rng.below(9) as u16, interlaced: rng.chance(1, 2), palette: if rng.chance(1, 2) { let n = rng.below(50) as usize; Some(rng.bytes(n)) } else { None }, transparent: if rng.chance(1, 2) { Some(rng.byte()) } else { None }, buffer: b.into(), ..Frame::default() };
        describe(format!("FrameDecoder, options {o:?}, {f:?}"));
        if rng.chance(1, 2) { let _ = fd.decode_lzw_encoded_frame(&mut f); } else { let mut out = vec![0; rng.below(400) as usize]; let _ = fd.decode_lzw_encoded_frame_into_buffer(&f, &mut out); }
        let _ = fd.buffer_size(&f);
    }
}

fn encode_case(prop: &str, rng: &mut Rng) -> Outcome {
    let (bad, desc, key, nontrivial);
    match prop {
        "C25" => { let mut r2 = rng.clone(); let s = format!("round trip, generator state from case seed; first script {:.600}", format!("{:?}", enc::gen_script(&mut r2, false))); key = hash(s.as_bytes()); describe(s.clone()); desc = s; bad = enc::round_trip(rng); nontrivial = true; }
        "C26" => { desc = "see message".to_string(); describe("truecolour constructor".into()); key = rng.clone().next(); bad = enc::truecolour(rng); nontrivial = true; }
        _ => {
            let errors = !(prop == "C24" && rng.chance(1, 2));
            let s = enc::gen_script(rng, errors);
            let t = format!("{s:?}");
            key = hash(t.as_bytes());
            nontrivial = !s.ops.is_empty() || prop == "C18";
            desc = t.chars().take(4000).collect::<String>();
            describe(desc.clone());
            bad = if prop == "C24" { enc::failing(&s, rng) } else { enc::layout(&s, if rng.chance(1, 2) { vec![] } else { vec![1, 7] }, rng.chance(1, 6)) };
        }
    }
    Outcome { bad, desc, nontrivial, key }
}

fn run_case(prop: &str, seed: u64) -> Outcome {
    let mut rng = Rng::new(seed);
    let dec = matches!(&prop[1..], "01" | "02" | "03" | "04" | "05" | "06" | "07" | "08" | "09" | "10" | "11" | "12" | "13" | "14" | "15" | "16" | "17");
    let mut o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if dec { decode_case(prop, &mut rng) } else { encode_case(prop, &mut rng) })) {
        Ok(o) => o,
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow().clone());
            // for every property: the operation did not deliver what it promises
            Outcome { bad: vec![(vec![if dec { "C01" } else { "any" }, if matches!(prop, "C01") { "C01" } else { "any" }], format!("panic: {msg}"))], desc: DESC.with(|d| d.borrow().clone()), nontrivial: true, key: 0 }
        }
    };
    o.bad.retain(|(t, _)| t.contains(&prop) || t.contains(&"any"));
    o
}

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(r, "\\u{:04x}", c as u32); } c => r.push(c) } }
    r.push('"');
    r
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|i| { let m = i.to_string(); PANIC.with(|p| *p.borrow_mut() = m); }));
    let prop = get("--prop").expect("--prop");
    if args.get(1).map(String::as_str) == Some("case") {
        let o = run_case(&prop, get("--case-seed").unwrap().parse().unwrap());
        println!("{}", o.desc);
        for (t, m) in &o.bad { println!("{t:?}: {m}"); }
        std::process::exit(i32::from(!o.bad.is_empty()));
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let ms: u64 = get("--ms").and_then(|s| s.parse().ok()).unwrap_or(2000);
    let threads: u64 = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(4);
    let out = get("--out");
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, String, String)>>> = Arc::new(Mutex::new(None));
    let slots: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let t0 = Instant::now();
    let total = Arc::new(AtomicU64::new(0));
    let keys: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for t in 0..threads {
        let (prop, stop, found, slots, total, keys, samples) = (prop.clone(), stop.clone(), found.clone(), slots.clone(), total.clone(), keys.clone(), samples.clone());
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut n = 0u64;
            let mut mine = HashSet::new();
            while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_millis(ms) {
                let cs = (seed << 40) ^ (n * threads + t);
                n += 1;
                slots[t as usize].0.store(cs, Ordering::SeqCst);
                slots[t as usize].1.store(1 + t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                let o = run_case(&prop, cs);
                slots[t as usize].1.store(0, Ordering::SeqCst);
                total.fetch_add(1, Ordering::Relaxed);
                if o.nontrivial && o.key != 0 && mine.len() < 2_000_000 { if mine.insert(o.key) && mine.len() == 5 { samples.lock().unwrap().push(format!("case seed {cs}: {}", o.desc.chars().take(700).collect::<String>())); } }
                if let Some((tags, m)) = o.bad.first() {
                    let mut f = found.lock().unwrap();
                    if f.is_none() { *f = Some((cs, format!("{tags:?}: {m}"), o.desc.clone())); }
                    stop.store(true, Ordering::Relaxed);
                }
            }
            keys.lock().unwrap().extend(mine);
        }).unwrap());
    }
    // watchdog
    let mut hang = None;
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) { break }
        let now = t0.elapsed().as_millis() as u64;
        for s in slots.iter() { let b = s.1.load(Ordering::SeqCst); if b > 0 && now > b + 10_000 { hang = Some(s.0.load(Ordering::SeqCst)); } }
        if hang.is_some() { break }
    }
    let (status, cs, msg, desc) = if let Some(cs) = hang { ("violation", cs, "no result after 10 seconds".to_string(), "see replay command".to_string()) }
        else { match found.lock().unwrap().clone() { Some((c, m, d)) => ("violation", c, m, d), None => ("ok", 0, String::new(), String::new()) } };
    let text = format!("{{\n \"property\": {},\n \"status\": {},\n \"cases\": {},\n \"distinct_nontrivial\": {},\n \"seed\": {seed},\n \"case_seed\": {cs},\n \"what\": {},\n \"input\": {},\n \"replay\": {},\n \"samples\": [{}]\n}}\n",
        json(&prop), json(status), total.load(Ordering::Relaxed), keys.lock().unwrap().len(), json(&msg), json(&desc), json(&format!("replay case --prop {prop} --case-seed {cs}")), samples.lock().unwrap().iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
    match out { Some(p) => std::fs::write(p, &text).unwrap(), None => print!("{text}") }
    std::process::exit(i32::from(status != "ok"));
}
