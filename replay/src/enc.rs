//! Encoder side.
use crate::dec::{self, Bad, Mode};
use crate::model::*;
use crate::util::*;
use gif::*;
use std::borrow::Cow;
use std::io::{self, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub struct Sink(pub Arc<Mutex<SinkState>>);
pub struct SinkState { pub data: Vec<u8>, pub budget: usize, pub zero: bool, pub plan: Vec<usize>, pub k: usize, pub failed: bool, pub interrupts: bool }
pub const KIND: io::ErrorKind = io::ErrorKind::ConnectionAborted;
impl Sink {
    pub fn new(budget: usize, zero: bool, plan: Vec<usize>, interrupts: bool) -> Self { Sink(Arc::new(Mutex::new(SinkState { data: vec![], budget, zero, plan, k: 0, failed: false, interrupts }))) }
    pub fn len(&self) -> usize { self.0.lock().unwrap().data.len() }
    pub fn bytes(&self) -> Vec<u8> { self.0.lock().unwrap().data.clone() }
    pub fn failed(&self) -> bool { self.0.lock().unwrap().failed }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.lock().unwrap();
        if b.is_empty() { return Ok(0); }
        s.k += 1;
        if s.interrupts && s.k % 3 == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        let mut n = if s.plan.is_empty() { b.len() } else { s.plan[s.k % s.plan.len()].max(1) }.min(b.len());
        n = n.min(s.budget - s.data.len().min(s.budget));
        if n == 0 { s.failed = true; return if s.zero { Ok(0) } else { Err(io::Error::from(KIND)) }; }
        s.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

#[derive(Clone, Debug)]
pub enum Op { Repeat(Repeat), Frame(Frame<'static>), Pre(Frame<'static>, bool), Raw(u8, Vec<Vec<u8>>), Ctl(u16, u8, bool, Option<u8>) }
#[derive(Clone, Debug)]
pub struct Script { pub w: u16, pub h: u16, pub pal: Vec<u8>, pub ops: Vec<Op>, pub into_inner: bool }

fn gen_pal(rng: &mut Rng, over: bool) -> Vec<u8> {
    let n = match rng.below(10) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 256, 5 if over => rng.range(257, 300), 6 => *rng.pick(&[4usize, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255]), _ => rng.range(1, 40) };
    let k = n * 3 + if rng.chance(1, 6) { rng.range(1, 2) } else { 0 };
    rng.bytes(k)
}

pub fn gen_frame(rng: &mut Rng, errors: bool, max: usize) -> Frame<'static> {
    let (mut w, mut h) = (rng.range(1, max) as u16, rng.range(1, max) as u16);
    if rng.chance(1, 12) { w = rng.range(200, 600) as u16; h = rng.range(1, 9) as u16; }
    let big = rng.chance(1, 400);
    if big { w = rng.range(150, 1200) as u16; h = (rng.range(30000, 150_000) / usize::from(w)) as u16; if rng.chance(1, 2) { std::mem::swap(&mut w, &mut h); } }
    let total = usize::from(w) * usize::from(h);
    let max_px: u8 = match rng.below(5) { 0 => 1, 1 => 3, 2 => rng.byte(), 3 => *rng.pick(&[4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255]), _ => 255 };
    let pat = rng.below(3);
    let mut px: Vec<u8> = (0..total).map(|i| match pat { 0 => rng.below(u64::from(max_px) + 1) as u8, 1 => max_px, _ => (i as u64 / 5 % (u64::from(max_px) + 1)) as u8 }).collect();
    if rng.chance(1, 4) { let i = rng.below(total as u64) as usize; px[i] = rng.byte(); }
    if big {
        let (from, v, lo) = (rng.below(total as u64) as usize, rng.byte(), rng.byte());
        let noise = rng.chance(1, 3);
        for (i, p) in px.iter_mut().enumerate() { *p = if noise { rng.byte() } else if i >= from { v } else { lo.min(v) }; }
        if errors && rng.chance(1, 2) { let n = if rng.chance(1, 2) { total - 1 } else { rng.range(1, total) }; px.truncate(n) }
    } else if errors {
        match rng.below(14) {
            0 => { let n = rng.below(total as u64) as usize; px.truncate(n) }
            1 => { let n = rng.range(1, 50); px.extend(rng.bytes(n)) }
            2 => { px.truncate(total - 1) }
            3 if rng.chance(1, 2) => { w = rng.u16_any(); h = rng.u16_any(); if w == 0 || h == 0 { px.clear() } }
            _ => {}
        }
    }
    let over = errors && rng.chance(1, 3);
    Frame {
        delay: rng.u16_any(), dispose: dispose_of(rng.below(4) as u8), transparent: if rng.chance(1, 2) { Some(rng.byte()) } else { None }, needs_user_input: rng.chance(1, 2),
        top: rng.u16_any(), left: rng.u16_any(), width: w, height: h, interlaced: rng.chance(1, 4),
        palette: if rng.chance(1, 2) { Some(gen_pal(rng, over)) } else { None }, buffer: Cow::Owned(px),
    }
}

pub fn gen_script(rng: &mut Rng, errors: bool) -> Script {
    let over = errors && rng.chance(1, 3);
    let pal = gen_pal(rng, over);
    let mut ops = vec![];
    for _ in 0..rng.below(6) {
        ops.push(match rng.below(10) {
            0 | 1 => Op::Repeat(match rng.below(3) { 0 => Repeat::Infinite, 1 => Repeat::Finite(0), _ => Repeat::Finite(rng.u16_any()) }),
            2 => {
                let n = rng.below(4) as usize;
                let sl = (0..n).map(|_| { let k = match rng.below(6) { 0 => 0, 1 => 255, 2 => 256, 3 => *rng.pick(&[254usize, 510, 511, 765]), _ => rng.range(0, 30) }; rng.bytes(k) }).collect();
                Op::Raw(if rng.chance(1, 2) { 0xFE } else { rng.byte() }, sl)
            }
            3 => Op::Ctl(rng.u16_any(), rng.below(4) as u8, rng.chance(1, 2), if rng.chance(1, 2) { Some(rng.byte()) } else { None }),
            4 | 5 => {
                let mut f = gen_frame(rng, false, 20);
                let raw = errors && rng.chance(1, 3);
                if raw {
                    let k = match rng.below(6) { 0 => 0, 1 => 1, 2 => 255, 3 => 256, 4 => 511, _ => rng.range(0, 600) };
                    let mut b = rng.bytes(k);
                    if !b.is_empty() { b[0] = rng.below(14) as u8; }
                    if errors && rng.chance(1, 8) { f.palette = Some(gen_pal(rng, true)); }
                    f.buffer = Cow::Owned(b);
                }
                Op::Pre(f, raw)
            }
            _ => Op::Frame(gen_frame(rng, errors, 24)),
        });
    }
    Script { w: rng.u16_any(), h: rng.u16_any(), pal, ops, into_inner: rng.chance(1, 2) }
}

/// Expected pieces of the output
pub enum Seg { Exact(Vec<u8>, &'static str), Masked(u8, u8, &'static str), Optional(Vec<u8>), Pixels(Vec<u8>), RawImage(Vec<u8>) }

fn flag(n: usize) -> u8 { let mut k = 0; while (2usize << k) < n { k += 1 } k }
fn table(p: &[u8]) -> Option<(Vec<u8>, u8)> {
    let n = p.len() / 3;
    if n > 256 { return None; }
    let f = flag(n);
    let mut t = p[..n * 3].to_vec();
    t.resize(3 * (2 << f), 0);
    Some((t, f))
}
fn gce(delay: u16, dispose: u8, user: bool, tr: Option<u8>) -> Vec<u8> {
    let d = delay.to_le_bytes();
    vec![0x21, 0xF9, 4, u8::from(tr.is_some()) | u8::from(user) << 1 | dispose << 2, d[0], d[1], tr.unwrap_or(0), 0]
}
fn header(f: &Frame<'_>, global: bool) -> Result<Vec<u8>, ()> {
    let mut v = gce(f.delay, f.dispose as u8, f.needs_user_input, f.transparent);
    v.push(0x2C);
    for x in [f.left, f.top, f.width, f.height] { v.extend(x.to_le_bytes()); }
    let il = if f.interlaced { 0x40 } else { 0 };
    match &f.palette {
        Some(p) => { let (t, n) = table(p).ok_or(())?; v.push(il | 0x80 | n); v.extend(t) }
        None if global => v.push(il),
        None => return Err(()),
    }
    Ok(v)
}

/// `(accepted, pieces)` of one call
pub fn op_expect(op: &Op, global: bool) -> (bool, Vec<Seg>) {
    match op {
        Op::Repeat(Repeat::Finite(0)) => (true, vec![]),
        Op::Repeat(r) => {
            let n = match r { Repeat::Finite(n) => *n, Repeat::Infinite => 0 }.to_le_bytes();
            let mut v = b"\x21\xff\x0bNETSCAPE2.0\x03\x01".to_vec();
            v.extend([n[0], n[1], 0]);
            (true, vec![Seg::Exact(v, "C21")])
        }
        Op::Raw(l, sl) => {
            let mut v = vec![0x21, *l];
            for s in sl { for c in s.chunks(255) { v.push(c.len() as u8); v.extend(c); } }
            v.push(0);
            (true, vec![Seg::Exact(v, "C21")])
        }
        Op::Ctl(d, x, u, t) => (true, vec![Seg::Exact(gce(*d, *x, *u, *t), "C19")]),
        Op::Frame(f) => {
            let total = usize::from(f.width) * usize::from(f.height);
            if f.buffer.len() < total { return (false, vec![Seg::Optional(gce(f.delay, f.dispose as u8, f.needs_user_input, f.transparent))]) }
            match header(f, global) {
                Ok(h) => (true, vec![Seg::Exact(h, "C19"), Seg::Pixels(f.buffer.to_vec())]),
                Err(()) => (false, vec![Seg::Optional(gce(f.delay, f.dispose as u8, f.needs_user_input, f.transparent))]),
            }
        }
        Op::Pre(f, raw) => {
            if *raw && f.buffer.first().is_some_and(|m| *m > 11 || *m < 2) { return (false, vec![Seg::Optional(gce(f.delay, f.dispose as u8, f.needs_user_input, f.transparent))]) }
            match header(f, global) {
                Ok(h) => (true, vec![Seg::Exact(h, "C19"), if *raw { Seg::RawImage(f.buffer.to_vec()) } else { Seg::Pixels(f.buffer.to_vec()) }]),
                Err(()) => (false, vec![Seg::Optional(gce(f.delay, f.dispose as u8, f.needs_user_input, f.transparent))]),
            }
        }
    }
}

fn image_data(d: &[u8], pos: &mut usize) -> Result<(u8, Vec<u8>), String> {
    let min = *d.get(*pos).ok_or("no code size")?;
    *pos += 1;
    let mut pay = vec![];
    let mut short = false;
    loop {
        let n = usize::from(*d.get(*pos).ok_or("image data has no terminator")?);
        *pos += 1;
        if n == 0 { return Ok((min, pay)) }
        if short { return Err("a sub-block follows one that is not full".into()) }
        short = n < 255;
        pay.extend_from_slice(d.get(*pos..*pos + n).ok_or("sub-block cut off")?);
        *pos += n;
    }
}

pub fn check_segs(d: &[u8], segs: &[Seg], bad: &mut Bad, what: &str) {
    let mut pos = 0;
    for s in segs {
        match s {
            Seg::Exact(e, t) => {
                let got = &d[pos..(pos + e.len()).min(d.len())];
                if got != &e[..] { bad.push((vec![t], format!("{what}: wrote {} expected {}", short(got), short(e)))); return }
                pos += e.len();
            }
            Seg::Masked(v, m, t) => {
                if d.get(pos).map(|x| x & m) != Some(v & m) { bad.push((vec![t], format!("{what}: packed byte {:?}, expected {v:02x} under mask {m:02x}", d.get(pos)))); return }
                pos += 1;
            }
            Seg::Optional(e) => if d[pos..].starts_with(e) { pos += e.len() },
            Seg::Pixels(px) => match image_data(d, &mut pos) {
                Err(e) => { bad.push((vec!["C20"], format!("{what}: {e}"))); return }
                Ok((min, pay)) => {
                    let max = px.iter().copied().max().unwrap_or(0);
                    if !(2..=8).contains(&min) || u32::from(max) >= 1u32 << min { bad.push((vec!["C20"], format!("{what}: code size {min} for pixels up to {max}"))); return }
                    let (got, end) = lzw_decode(min, &pay, px.len() + 10);
                    if &got != px || end != LzwEnd::EndCode { bad.push((vec!["C20"], format!("{what}: image data decodes to {} ({end:?}), expected {}", short(&got), short(px)))); return }
                    if !pay.is_empty() && lzw_decode(min, &pay[..pay.len() - 1], px.len() + 10).1 == LzwEnd::EndCode { bad.push((vec!["C20"], format!("{what}: bytes after the end code"))); return }
                }
            },
            Seg::RawImage(b) => match image_data(d, &mut pos) {
                Err(e) => { bad.push((vec!["C20"], format!("{what}: {e}"))); return }
                Ok((min, pay)) => {
                    let (m, p) = b.split_first().unwrap_or((&2, &[]));
                    if min != *m || pay != p { bad.push((vec!["C20"], format!("{what}: payload {} expected {}", short(&pay), short(p)))); return }
                }
            },
        }
    }
    if pos != d.len() { bad.push((vec!["C19", "C20", "C21", "C23"], format!("{what}: extra bytes {}", short(&d[pos..])))); }
}

#[derive(Debug)]
pub enum R { Ok, Format, Io(io::ErrorKind) }
fn r(e: Result<(), EncodingError>) -> R { match e { Ok(()) => R::Ok, Err(EncodingError::Io(e)) => R::Io(e.kind()), Err(_) => R::Format } }

pub fn do_op<W: Write>(e: &mut Encoder<W>, op: &Op) -> R {
    match op {
        Op::Repeat(x) => r(e.set_repeat(*x)),
        Op::Raw(l, s) => { let sl: Vec<&[u8]> = s.iter().map(|x| &x[..]).collect(); r(e.write_raw_extension(AnyExtension(*l), &sl).map_err(Into::into)) }
        Op::Ctl(d, x, u, t) => r(e.write_extension(ExtensionData::new_control_ext(*d, dispose_of(*x), *u, *t))),
        Op::Frame(f) => r(e.write_frame(f)),
        Op::Pre(f, raw) => { let mut f = f.clone(); if !raw { f.make_lzw_pre_encoded(); } r(e.write_lzw_pre_encoded_frame(&f)) }
    }
}

pub fn new_segs(s: &Script) -> Option<Vec<Seg>> {
    let (t, n) = table(&s.pal)?;
    let mut h = b"GIF89a".to_vec();
    h.extend(s.w.to_le_bytes());
    h.extend(s.h.to_le_bytes());
    Some(vec![Seg::Exact(h, "C18"), Seg::Masked(0x80 | n, 0x8F, "C18"), Seg::Exact(vec![0, 0], "C18"), Seg::Exact(t, "C18")])
}

/// C18..C23
pub fn layout(s: &Script, short_writes: Vec<usize>, interrupts: bool) -> Bad {
    let mut bad: Bad = vec![];
    let sink = Sink::new(usize::MAX, false, short_writes, interrupts);
    let segs = new_segs(s);
    let mut e = match (Encoder::new(sink.clone(), s.w, s.h, &s.pal), segs) {
        (Ok(e), Some(sg)) => { check_segs(&sink.bytes(), &sg, &mut bad, "Encoder::new"); e }
        (Err(_), None) => {
            let b = sink.bytes();
            if !(b.is_empty() || b == [0x3B]) { bad.push((vec!["C18"], format!("rejected palette, but wrote {}", short(&b)))); }
            return bad
        }
        (Ok(_), None) => { bad.push((vec!["C18"], format!("palette of {} colours accepted", s.pal.len() / 3))); return bad }
        (Err(x), Some(_)) => { bad.push((vec!["C18"], format!("Encoder::new failed: {x}"))); return bad }
    };
    let global = s.pal.len() >= 3;
    for (k, op) in s.ops.iter().enumerate() {
        let a = sink.len();
        let (ok, segs) = op_expect(op, global);
        let res = do_op(&mut e, op);
        let new = sink.bytes()[a..].to_vec();
        let what = format!("call {k}");
        match (&res, ok) {
            (R::Ok, true) => {
                let n0 = bad.len();
                check_segs(&new, &segs, &mut bad, &what);
                if bad.len() == n0 && matches!(op, Op::Frame(_)) {
                    let s2 = Sink::new(usize::MAX, false, vec![], false);
                    let mut e2 = Encoder::new(s2.clone(), 1, 1, &[0, 0, 0]).unwrap();
                    let a2 = s2.len();
                    if !matches!(do_op(&mut e2, op), R::Ok) || s2.bytes()[a2..] != new[..] { bad.push((vec!["C20"], format!("{what}: output depends on what was written before"))); }
                }
                if let (Op::Frame(f), true) = (op, bad.len() == n0) {
                    let mut f = f.clone();
                    f.make_lzw_pre_encoded();
                    let s2 = Sink::new(usize::MAX, false, vec![], false);
                    let mut e2 = Encoder::new(s2.clone(), 1, 1, &[0, 0, 0]).unwrap();
                    let a2 = s2.len();
                    if e2.write_lzw_pre_encoded_frame(&f).is_err() || s2.bytes()[a2..] != new[..] { bad.push((vec!["C25"], format!("{what}: pre-encoding gives other bytes"))); }
                }
            }
            (R::Ok, false) => bad.push((vec!["C23"], format!("{what}: accepted, must be rejected: {}", describe(op)))),
            (_, true) => bad.push((vec!["C23"], format!("{what}: failed with {res:?}: {}", describe(op)))),
            (_, false) => { let n0 = bad.len(); check_segs(&new, &segs, &mut bad, &what); for b in &mut bad[n0..] { b.0 = vec!["C23"] } }
        }
        if !bad.is_empty() { return bad }
    }
    let before = sink.bytes();
    if s.into_inner {
        match e.into_inner() { Ok(_) => {} Err(x) => bad.push((vec!["C22"], format!("into_inner failed: {x}"))) }
    } else { drop(e) }
    let after = sink.bytes();
    if !after.starts_with(&before) || after[before.len()..] != [0x3B] { bad.push((vec!["C22"], format!("finishing wrote {}", short(&after[before.len().min(after.len())..])))); }
    bad
}
fn describe(op: &Op) -> String {
    match op {
        Op::Frame(f) | Op::Pre(f, _) => format!("frame {}x{} buffer {} palette {:?} first byte {:?}", f.width, f.height, f.buffer.len(), f.palette.as_ref().map(|p| p.len()), f.buffer.first()),
        o => { let s = format!("{o:?}"); s.chars().take(200).collect() }
    }
}

/// C24: `script` against a writer that stops after `budget` bytes
pub fn failing(s: &Script, rng: &mut Rng) -> Bad {
    let mut bad: Bad = vec![];
    // offsets after each call with a perfect writer
    let sink = Sink::new(usize::MAX, false, vec![], false);
    let Ok(mut e) = Encoder::new(sink.clone(), s.w, s.h, &s.pal) else { return bad };
    let mut offs = vec![sink.len()];
    let mut oks = vec![true];
    for op in &s.ops { oks.push(matches!(do_op(&mut e, op), R::Ok)); offs.push(sink.len()); }
    if e.into_inner().is_err() { return vec![(vec!["C22"], "into_inner failed".into())] }
    let full = sink.bytes();
    for round in 0..8 {
        let budget = match round { 0 => full.len() - 1, 1 => { let k = rng.below(offs.len() as u64) as usize; offs[k].min(full.len() - 1) }, 2 => { let k = rng.below(offs.len() as u64) as usize; offs[k] - 1 }, 7 => usize::MAX, _ => rng.below(full.len() as u64) as usize };
        let zero = rng.chance(1, 2);
        let plan = if rng.chance(1, 2) { vec![] } else { vec![rng.range(1, 5), rng.range(1, 300)] };
        let want = if zero { io::ErrorKind::WriteZero } else { KIND };
        let sink = Sink::new(budget, zero, plan.clone(), rng.chance(1, 4));
        let ctx = format!("writer stops after {budget} of {} bytes (returns {}), short writes {plan:?}", full.len(), if zero { "Ok(0)" } else { "an error" });
        let mut call = 0;
        let mut failed_call = None;
        let mut fin_ok = None;
        match Encoder::new(sink.clone(), s.w, s.h, &s.pal) {
            Err(EncodingError::Io(x)) if x.kind() == want && offs[0] > budget => failed_call = Some(0),
            Err(x) => { bad.push((vec!["C24"], format!("Encoder::new failed with {x}; {ctx}"))); return bad }
            Ok(mut e) => {
                if sink.failed() || sink.len() < offs[0] { bad.push((vec!["C24"], format!("Encoder::new succeeded after {} of {} bytes; {ctx}", sink.len(), offs[0]))); return bad }
                for (k, op) in s.ops.iter().enumerate() {
                    call = k + 1;
                    let res = do_op(&mut e, op);
                    let exp_fail = offs[call] > budget;
                    match res {
                        R::Io(x) if exp_fail && x == want => { failed_call = Some(call); break }
                        R::Ok if oks[call] && !exp_fail => if sink.len() != offs[call] { bad.push((vec!["C24"], format!("call {k} succeeded with {} bytes written, expected {}; {ctx}", sink.len(), offs[call]))); return bad },
                        R::Ok if exp_fail => { bad.push((vec!["C24"], format!("call {k} succeeded although the writer failed; {ctx}"))); return bad }
                        _ if !oks[call] && !exp_fail => {}
                        x => { bad.push((vec!["C24"], format!("call {k} returned {x:?}, expected {}; {ctx}", if exp_fail { "the writer's error" } else { "success" }))); return bad }
                    }
                }
                if failed_call.is_none() && rng.chance(2, 3) {
                    match e.into_inner() { Ok(_) => fin_ok = Some(true), Err(x) => { if x.kind() != want { bad.push((vec!["C24"], format!("into_inner returned {x}; {ctx}"))); } fin_ok = Some(false) } }
                } else { drop(e) }
            }
        }
        let _ = call;
        let got = sink.bytes();
        if !full.starts_with(&got) { bad.push((vec!["C24"], format!("{} reached the writer, not a prefix of {}; {ctx}", short(&got), short(&full)))); return bad }
        if let Some(ok) = fin_ok {
            if ok != (got.len() == full.len()) { bad.push((vec!["C24"], format!("into_inner {} with {} of {} bytes written; {ctx}", if ok { "succeeded" } else { "failed" }, got.len(), full.len()))); return bad }
        } else if failed_call.is_none() && budget >= full.len() && got.len() != full.len() { bad.push((vec!["C24"], format!("dropping wrote {} of {} bytes", got.len(), full.len()))); return bad }
    }
    bad
}

/// C25
pub fn round_trip(rng: &mut Rng) -> Bad {
    let mut bad: Bad = vec![];
    let mut s = gen_script(rng, false);
    s.pal = gen_pal(rng, false);
    let global = s.pal.len() >= 3;
    s.ops.retain(|o| matches!(o, Op::Frame(_) | Op::Pre(..)));
    let n = rng.range(0, 4);
    while s.ops.len() < n { s.ops.push(Op::Frame(gen_frame(rng, false, 30))); }
    let rep = match rng.below(3) { 0 => Repeat::Infinite, 1 => Repeat::Finite(0), _ => Repeat::Finite(rng.range(1, 65535) as u16) };
    for o in &mut s.ops { if let Op::Frame(f) | Op::Pre(f, _) = o { if !global && f.palette.is_none() { f.palette = Some(rng.bytes(6)); } } }
    let sink = Sink::new(usize::MAX, false, vec![], false);
    let mut e = match Encoder::new(sink.clone(), s.w, s.h, &s.pal) { Ok(e) => e, Err(x) => return vec![(vec!["C25"], format!("Encoder::new: {x}"))] };
    if let R::Ok = do_op(&mut e, &Op::Repeat(rep)) {} else { return vec![(vec!["C25"], "set_repeat failed".into())] }
    for (k, o) in s.ops.iter().enumerate() {
        if rng.chance(1, 5) { let n = rng.below(300) as usize; let b = rng.bytes(n); let _ = do_op(&mut e, &Op::Raw(0xFE, if n == 0 { vec![] } else { vec![b] })); }
        match do_op(&mut e, o) { R::Ok => {} x => return vec![(vec!["C25"], format!("frame {k} rejected: {x:?}"))] }
    }
    drop(e);
    let d = sink.bytes();
    let o = Opts { limit: None, ..Opts::default_opts() };
    let ob = dec::drive(&d, &o, &dec::gen_plan(rng), &[Mode::Read], None);
    let pad = |p: &[u8]| table(p).map(|t| t.0);
    match &ob.header {
        None => { bad.push((vec!["C25"], format!("opening failed: {:?}", ob.end))); return bad }
        Some(h) => {
            if (h.w, h.h) != (s.w, s.h) { bad.push((vec!["C25"], format!("screen {}x{}, expected {}x{}", h.w, h.h, s.w, s.h))); }
            if h.repeat != rep { bad.push((vec!["C25"], format!("repeat {:?}, expected {rep:?}", h.repeat))); }
            if h.gpal != pad(&s.pal) { bad.push((vec!["C25"], "global palette differs".into())); }
        }
    }
    if ob.end != dec::End::Trailer { bad.push((vec!["C25"], format!("ended with {:?}", ob.end))); }
    if ob.frames.len() != s.ops.len() { bad.push((vec!["C25"], format!("{} frames, expected {}", ob.frames.len(), s.ops.len()))); return bad }
    for (k, (g, o)) in ob.frames.iter().zip(&s.ops).enumerate() {
        let (Op::Frame(f) | Op::Pre(f, _)) = o else { continue };
        let mut m = dec::meta(f);
        m.lpal = m.lpal.as_deref().and_then(pad);
        m.interlaced = false;
        if g.meta != m { bad.push((vec!["C25"], format!("frame {k}: {:?}, expected {m:?}", g.meta))); }
        let (w, h) = (usize::from(f.width), usize::from(f.height));
        let px = &f.buffer[..w * h];
        let px = if f.interlaced { deinterlace(px, w, h) } else { px.to_vec() };
        if g.data.as_ref() != Some(&px) { bad.push((vec!["C25"], format!("frame {k}: pixels {} expected {}", short(g.data.as_deref().unwrap_or_default()), short(&px)))); }
    }
    bad
}

/// C26
pub fn truecolour(rng: &mut Rng) -> Bad {
    use std::panic::catch_unwind;
    let mut bad: Bad = vec![];
    let mut add = |m: String| bad.push((vec!["C26"], m));
    let (w, h) = match rng.below(8) { 0 => (16, 16), 1 => (rng.range(0, 3) as u16, rng.range(0, 3) as u16), 2 => (rng.range(15, 20) as u16, rng.range(15, 20) as u16), _ => (rng.range(1, 12) as u16, rng.range(1, 12) as u16) };
    let total = usize::from(w) * usize::from(h);
    let wrong: i64 = if rng.chance(1, 8) { *rng.pick(&[-1i64, 1, 4, -4, 3]) } else { 0 };
    let speed = if rng.chance(1, 6) { *rng.pick(&[0i32, 31, -1, 30, 1]) } else { rng.range(1, 30) as i32 };
    let rgb = rng.chance(1, 3);
    let ch = if rgb { 3 } else { 4 };
    let ncol = match rng.below(5) { 0 => 1, 1 => 2, 2 => 256, 3 => rng.range(1, 300), _ => rng.range(1, 20) };
    let cols: Vec<[u8; 4]> = (0..ncol).map(|_| [rng.byte(), rng.byte(), rng.byte(), match rng.below(4) { 0 => 0, 1 => rng.byte(), _ => 255 }]).collect();
    let seq = rng.chance(1, 2);
    let mut px: Vec<u8> = (0..total).flat_map(|i| { let c = if seq { cols[i % ncol] } else { *rng.pick(&cols) }; c[..ch].to_vec() }).collect();
    if rng.chance(1, 6) { px = (0..total).flat_map(|i| { let g = (i % 256) as u8; [g, g ^ 1, 0, if i == 5 { 0 } else { 255 }][..ch].to_vec() }).collect(); }
    let len = (px.len() as i64 + wrong).max(0) as usize;
    px.resize(len, 7);
    let plain = rng.chance(1, 4);
    let sp = if plain { 1 } else { speed };
    let must_panic = px.len() != total * ch || !(1..=30).contains(&sp);
    let orig = px.clone();
    let res = catch_unwind(|| {
        let mut p = px.clone();
        match (rgb, plain) {
            (true, true) => Frame::from_rgb(w, h, &p), (true, false) => Frame::from_rgb_speed(w, h, &p, sp),
            (false, true) => Frame::from_rgba(w, h, &mut p), (false, false) => Frame::from_rgba_speed(w, h, &mut p, sp),
        }
    });
    let ctx = format!("{w}x{h}, {} channels, {} bytes, speed {sp}, pixels {}", ch, orig.len(), short(&orig));
    match res {
        Err(_) if must_panic => {}
        Err(_) => add(format!("panicked: {ctx}")),
        Ok(_) if must_panic => add(format!("did not panic: {ctx}")),
        Ok(f) => {
            let pal = f.palette.clone().unwrap_or_default();
            if (f.width, f.height) != (w, h) || f.buffer.len() != total { add(format!("{}x{} with {} indices: {ctx}", f.width, f.height, f.buffer.len())); }
            if pal.len() % 3 != 0 || pal.len() > 768 { add(format!("palette of {} bytes: {ctx}", pal.len())); }
            if f.interlaced || f.left != 0 || f.top != 0 || f.delay != 0 { add(format!("unexpected frame fields: {ctx}")); }
            let p4: Vec<[u8; 4]> = orig.chunks(ch).map(|c| [c[0], c[1], c[2], if ch == 3 { 255 } else { c[3] }]).collect();
            let mut set: Vec<[u8; 3]> = p4.iter().filter(|c| c[3] != 0).map(|c| [c[0], c[1], c[2]]).collect();
            set.sort(); set.dedup();
            let tr = p4.iter().any(|c| c[3] == 0);
            if set.len() + usize::from(tr) <= 256 && f.buffer.len() == total {
                for (k, c) in p4.iter().enumerate() {
                    let i = f.buffer[k];
                    if c[3] == 0 { if f.transparent != Some(i) { add(format!("transparent pixel {k} has index {i}, transparent index {:?}: {ctx}", f.transparent)); break } }
                    else if f.transparent == Some(i) { add(format!("opaque pixel {k} has the transparent index {i}: {ctx}")); break }
                    else if pal.get(usize::from(i) * 3..usize::from(i) * 3 + 3) != Some(&c[..3]) { add(format!("pixel {k} {c:?} has index {i} of another colour: {ctx}")); break }
                }
            }
        }
    }
    // the other constructors
    let n = (total as i64 + wrong).max(0) as usize;
    let idx = rng.bytes(n);
    let pl = match rng.below(4) { 0 => 768, 1 => 769, 2 => rng.range(0, 900), _ => 768 + rng.range(0, 3) };
    let pal = rng.bytes(pl);
    let t = if rng.chance(1, 2) { Some(rng.byte()) } else { None };
    let r1 = catch_unwind(|| Frame::from_palette_pixels(w, h, idx.clone(), pal.clone(), t));
    let r2 = catch_unwind(|| Frame::from_indexed_pixels(w, h, idx.clone(), t));
    for (r, must, p, name) in [(r1, n != total || pl > 768, Some(&pal), "from_palette_pixels"), (r2, n != total, None, "from_indexed_pixels")] {
        match r {
            Err(_) if must => {}
            Err(_) => add(format!("{name} panicked: {w}x{h} {n} pixels, palette {pl}")),
            Ok(_) if must => add(format!("{name} did not panic: {w}x{h} {n} pixels, palette {pl}")),
            Ok(f) => if f.buffer[..] != idx[..] || f.palette.as_ref() != p || f.transparent != t || (f.width, f.height) != (w, h) { add(format!("{name} changed its arguments")) }
        }
    }
    bad
}
