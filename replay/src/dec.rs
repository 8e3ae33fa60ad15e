//! Decoder side: runs the real decoder, compares with the reference.
use crate::model::*;
use crate::util::*;
use gif::streaming_decoder::*;
use gif::*;
use std::io::{self, Read};

pub struct Chunks { pub d: Vec<u8>, pub i: usize, pub plan: Vec<usize>, pub k: usize, pub fail: Option<(usize, io::ErrorKind)> }
impl Chunks {
    pub fn new(d: &[u8], plan: &[usize]) -> Self { Chunks { d: d.to_vec(), i: 0, plan: plan.to_vec(), k: 0, fail: None } }
}
impl Read for Chunks {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if let Some((p, kind)) = self.fail { if self.i >= p { return Err(io::Error::from(kind)); } }
        let mut n = if self.plan.is_empty() { usize::MAX } else { self.plan[self.k % self.plan.len()].max(1) };
        self.k += 1;
        n = n.min(b.len()).min(self.d.len() - self.i);
        if let Some((p, _)) = self.fail { n = n.min(p - self.i); }
        b[..n].copy_from_slice(&self.d[self.i..self.i + n]);
        self.i += n;
        Ok(n)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode { Read, Into, Fill(Vec<usize>), Partial(Vec<usize>), Skip }

#[derive(Clone, Debug, PartialEq)]
pub enum End { Trailer, Err { io: Option<io::ErrorKind>, msg: String }, Capped }
impl End { pub fn eof(&self) -> bool { matches!(self, End::Err { io: Some(io::ErrorKind::UnexpectedEof), .. }) } }

#[derive(Clone, Debug, PartialEq)]
pub struct Meta { pub delay: u16, pub dispose: u8, pub user: bool, pub transparent: Option<u8>, pub left: u16, pub top: u16, pub w: u16, pub h: u16, pub interlaced: bool, pub lpal: Option<Vec<u8>> }
pub fn meta(f: &Frame<'_>) -> Meta {
    Meta { delay: f.delay, dispose: f.dispose as u8, user: f.needs_user_input, transparent: f.transparent, left: f.left, top: f.top, w: f.width, h: f.height, interlaced: f.interlaced, lpal: f.palette.clone() }
}
#[derive(Clone, Debug, PartialEq)]
pub struct FObs { pub mode: Mode, pub meta: Meta, pub pal: Option<Vec<u8>>, pub data: Option<Vec<u8>>, pub size: usize, pub line: usize }
#[derive(Clone, Debug, PartialEq)]
pub struct Header { pub w: u16, pub h: u16, pub gpal: Option<Vec<u8>>, pub bg: Option<usize>, pub repeat: Repeat }
#[derive(Clone, Debug, PartialEq)]
pub struct Obs { pub header: Option<Header>, pub frames: Vec<FObs>, pub end: End, pub again: String, pub max_alloc: usize, pub meta_only: Option<Meta> }

pub fn err(e: &DecodingError) -> End {
    match e { DecodingError::Io(x) => End::Err { io: Some(x.kind()), msg: x.to_string() }, x => End::Err { io: None, msg: x.to_string() } }
}

pub fn options(o: &Opts) -> DecodeOptions {
    let mut d = DecodeOptions::new();
    if o.how == 1 {
        d.set_color_output(if o.rgba { ColorOutput::Indexed } else { ColorOutput::RGBA });
        d.set_memory_limit(MemoryLimit::Bytes(std::num::NonZeroU64::new(7).unwrap()));
        d.check_frame_consistency(!o.bounds);
        d.skip_frame_decoding(!o.skip);
        d.check_lzw_end_code(!o.end_code);
        d.allow_unknown_blocks(!o.unknown);
    }
    let all = o.how != 2;
    if all || o.rgba { d.set_color_output(if o.rgba { ColorOutput::RGBA } else { ColorOutput::Indexed }); }
    if all || o.limit != Some(50_000_000) { d.set_memory_limit(match o.limit.and_then(std::num::NonZeroU64::new) { Some(l) => MemoryLimit::Bytes(l), None => MemoryLimit::Unlimited }); }
    if all || o.bounds { d.check_frame_consistency(o.bounds); }
    if all || o.skip { d.skip_frame_decoding(o.skip); }
    if all || o.end_code { d.check_lzw_end_code(o.end_code); }
    if all || o.unknown { d.allow_unknown_blocks(o.unknown); }
    d
}

pub fn gen_opts(rng: &mut Rng) -> Opts {
    Opts { rgba: rng.chance(1, 2), limit: if rng.chance(1, 2) { None } else { Some(match rng.below(3) { 0 => rng.range(1, 2000) as u64, 1 => rng.range(1, 60) as u64, _ => 50_000_000 }) },
        bounds: rng.chance(1, 4), skip: rng.chance(1, 5), end_code: rng.chance(1, 3), unknown: rng.chance(1, 2), how: [0, 0, 1, 2][rng.below(4) as usize] }
}
pub fn gen_plan(rng: &mut Rng) -> Vec<usize> {
    match rng.below(6) { 0 => vec![], 1 => vec![1], 2 => vec![2], 3 => vec![rng.range(1, 30)], _ => (0..rng.range(1, 6)).map(|_| match rng.below(3) { 0 => rng.range(1, 3), 1 => rng.range(1, 20), _ => rng.range(1, 300) }).collect() }
}
pub fn gen_modes(rng: &mut Rng) -> Vec<Mode> {
    (0..rng.range(1, 4)).map(|_| match rng.below(8) {
        0..=2 => Mode::Read, 3 => Mode::Into,
        4 => Mode::Fill((0..rng.range(1, 4)).map(|_| rng.range(1, 40)).collect()),
        5 => Mode::Fill(vec![1]),
        6 => Mode::Partial((0..rng.range(1, 3)).map(|_| rng.range(1, 20)).collect()),
        _ => Mode::Skip }).collect()
}

/// The mode really used for a frame
fn adapt(m: &Mode, skip: bool, bytes: usize) -> Mode {
    match m {
        Mode::Read => Mode::Read,
        _ if skip || bytes > 4 << 20 || bytes == 0 => Mode::Skip,
        m => m.clone(),
    }
}

pub const UNDER: u8 = 0xA5;

pub fn drive(d: &[u8], o: &Opts, plan: &[usize], modes: &[Mode], fail: Option<(usize, io::ErrorKind)>) -> Obs {
    let mut rd = Chunks::new(d, plan);
    rd.fail = fail;
    let mut ob = Obs { header: None, frames: vec![], end: End::Capped, again: String::new(), max_alloc: 0, meta_only: None };
    alloc_reset();
    let mut dec = match options(o).read_info(rd) { Ok(d) => d, Err(e) => { ob.end = err(&e); return ob } };
    ob.header = Some(Header { w: dec.width(), h: dec.height(), gpal: dec.global_palette().map(<[u8]>::to_vec), bg: dec.bg_color(), repeat: dec.repeat() });
    let px = if o.rgba { 4 } else { 1 };
    for k in 0..300 {
        let m0 = &modes[k % modes.len()];
        ob.meta_only = None;
        if *m0 == Mode::Read {
            match dec.read_next_frame() {
                Err(e) => { ob.end = err(&e); break }
                Ok(None) => { ob.end = End::Trailer; break }
                Ok(Some(f)) => { let (m, b) = (meta(f), f.buffer.to_vec()); ob.frames.push(FObs { mode: Mode::Read, meta: m, data: Some(b), pal: None, size: 0, line: 0 }) }
            }
        } else {
            let mt = match dec.next_frame_info() {
                Err(e) => { ob.end = err(&e); break }
                Ok(None) => { ob.end = End::Trailer; break }
                Ok(Some(f)) => meta(f),
            };
            let bytes = usize::from(mt.w) * usize::from(mt.h) * px;
            let m = adapt(m0, o.skip, bytes);
            ob.meta_only = Some(mt.clone());
            let mut data = None;
            match &m {
                Mode::Into => {
                    let mut b = vec![UNDER; bytes];
                    if let Err(e) = dec.read_into_buffer(&mut b) { ob.end = err(&e); break }
                    data = Some(b);
                }
                Mode::Fill(sz) | Mode::Partial(sz) => {
                    let part = matches!(m, Mode::Partial(_));
                    let mut b = vec![UNDER; bytes];
                    let (mut i, mut q, mut stop) = (0, 0, None);
                    while i < bytes && !(part && q == sz.len()) {
                        let n = (sz[q % sz.len()] * px).min(bytes - i);
                        q += 1;
                        match dec.fill_buffer(&mut b[i..i + n]) {
                            Ok(true) => i += n,
                            Ok(false) => { stop = Some(End::Err { io: None, msg: "image truncated".into() }); break }
                            Err(e) => { stop = Some(err(&e)); break }
                        }
                    }
                    if let Some(s) = stop { ob.end = s; break }
                    b.truncate(i);
                    data = Some(b);
                }
                _ => {}
            }
            ob.frames.push(FObs { mode: m, meta: mt, data, pal: None, size: 0, line: 0 });
        }
        let f = ob.frames.last_mut().unwrap();
        f.pal = dec.palette().ok().map(<[u8]>::to_vec);
        f.size = dec.buffer_size();
        f.line = dec.line_length();
    }
    if ob.end != End::Capped {
        for i in 0..3 {
            let r = if i == 1 { dec.next_frame_info() } else { dec.read_next_frame() };
            ob.again.push(match r { Ok(None) => 'N', Ok(Some(_)) => 'F', Err(_) => 'E' });
        }
    }
    ob.max_alloc = alloc_max();
    ob
}

/// What the reference says about a run
pub enum Want { Frame { meta: Meta, pal: Vec<u8>, data: Option<Vec<u8>>, raw: Vec<u8>, may_fail: bool }, }
pub struct Expect { pub header: Option<(Header, bool)>, pub frames: Vec<Want>, pub end: WEnd, pub pending: Option<Meta> }
#[derive(Debug, Clone, PartialEq)]
pub enum WEnd { Trailer, Eof, Stop(Why), Truncated, Mem, AnyErr(&'static str), Unspecified }

pub fn expect(d: &[u8], o: &Opts, modes: &[Mode]) -> Expect {
    let g = match ref_parse(d, o) { Ok(g) => g, Err(Why::Eof) => return Expect { header: None, frames: vec![], end: WEnd::Eof, pending: None }, Err(w) => return Expect { header: None, frames: vec![], end: WEnd::Stop(w), pending: None } };
    let bg = match &g.gpal { Some(p) if usize::from(g.bg) >= p.len() / 3 => None, _ => Some(usize::from(g.bg)) };
    let mut repeat = Repeat::Finite(0);
    let mut canonical = true;
    let (mut frames, mut end) = (vec![], None);
    let mut pending = None;
    let (mut seen, mut k) = (false, 0);
    let mut must_err = false;
    for it in &g.items {
        if must_err { end = Some(WEnd::AnyErr("end code")); break; }
        match it {
            Item::Ext { label: 0xFF, subs, complete: true, .. } if !seen => {
                if let Some(n) = netscape(subs) { repeat = if n == 0 { Repeat::Infinite } else { Repeat::Finite(n) }; if subs[0].len() != 11 { canonical = false } }
            }
            Item::Ext { .. } => {}
            Item::Unknown => seen = true,
            Item::Trailer => { end = Some(WEnd::Trailer); break }
            Item::Stop(Why::Eof) => { end = Some(WEnd::Eof); break }
            Item::Stop(w) => { end = Some(WEnd::Stop(w.clone())); break }
            Item::Image(im) => {
                seen = true;
                let m0 = &modes[k % modes.len()];
                k += 1;
                let Some(pal) = im.lpal.clone().or(g.gpal.clone()) else { end = Some(WEnd::Stop(Why::NoPalette)); break };
                let total = usize::from(im.w) * usize::from(im.h);
                let px = if o.rgba { 4 } else { 1 };
                let mode = adapt(m0, o.skip, total * px);
                let mut mt = Meta { delay: im.delay, dispose: dispose_of(im.dispose) as u8, user: im.user, transparent: im.transparent, left: im.left, top: im.top, w: im.w, h: im.h, interlaced: im.interlaced, lpal: im.lpal.clone() };
                let mut raw = vec![im.min];
                raw.extend(&im.lzw);
                pending = Some(mt.clone());
                if o.skip {
                    let mut data = None;
                    if mode == Mode::Read {
                        if !im.lzw.is_empty() && o.limit.is_some_and(|l| raw.len() as u64 > l) { end = Some(WEnd::Mem); break }
                        if !im.complete { end = Some(WEnd::Eof); break }
                        data = Some(raw.clone());
                    }
                    frames.push(Want::Frame { meta: mt, pal, data, raw, may_fail: false });
                    continue;
                }
                if mode == Mode::Read && o.limit.is_some_and(|l| (total * px) as u64 > l) { end = Some(WEnd::Mem); break }
                if !(2..=8).contains(&im.min) || total == 0 && mode != Mode::Skip { end = Some(WEnd::Unspecified); break }
                let (pix, lend) = lzw_decode(im.min, &im.lzw, 3 << 20);
                if lend == LzwEnd::Bad && (mode != Mode::Skip || o.end_code) { end = Some(WEnd::Unspecified); break }
                let needed = match &mode { Mode::Skip => 0, Mode::Partial(s) => s.iter().sum::<usize>().min(total), _ => total };
                if pix.len() < needed {
                    end = Some(if !im.complete { WEnd::Eof } else if o.end_code && lend != LzwEnd::EndCode { WEnd::AnyErr("end code") } else { WEnd::Truncated });
                    break;
                }
                let fills = matches!(mode, Mode::Fill(_) | Mode::Partial(_));
                if fills && !im.complete { end = Some(WEnd::Unspecified); break }
                // codes that are still buffered may be lost at an unexpected end
                let cut = !im.complete && mode != Mode::Skip;
                let p = &pix[..needed];
                let p = if im.interlaced && matches!(mode, Mode::Read | Mode::Into) { deinterlace(p, usize::from(im.w), usize::from(im.h)) } else { p.to_vec() };
                let data = if mode == Mode::Skip { None } else { Some(if o.rgba { expand(&p, &pal, im.transparent, if mode == Mode::Read { 0 } else { UNDER }) } else { p }) };
                if mode == Mode::Read { mt.interlaced = false; }
                if o.end_code && lend == LzwEnd::RanOut && im.complete { must_err = true; }
                frames.push(Want::Frame { meta: mt, pal, data, raw, may_fail: must_err || cut });
            }
        }
    }
    let end = end.unwrap_or(WEnd::Unspecified);
    // the header is known for sure only once an image or the trailer was reached
    let sure = !frames.is_empty() || end == WEnd::Trailer;
    let header = Some((Header { w: g.w, h: g.h, gpal: g.gpal, bg, repeat }, sure && canonical));
    Expect { header, frames, end, pending }
}

pub type Bad = Vec<(Vec<&'static str>, String)>;

fn tags_of_msg(m: &str, e: &End) -> Vec<&'static str> {
    let mut t = vec![];
    for (k, ids) in [("out-of-bounds", vec!["C08"]), ("memory limit", vec!["C09"]), ("too large", vec!["C09"]), ("memory", vec!["C09"]), ("end code", vec!["C14"]), ("unknown block", vec!["C15"]),
        ("control extension", vec!["C06", "C15"]), ("color table", vec!["C05"]), ("code size", vec!["C12", "C13"]), ("truncated", vec!["C12", "C14"]), ("malformed", vec!["C04"]), ("invalid code", vec!["C12"]), ("unexpected data", vec!["C12", "C13"]), ("buffer", vec!["C12"])] {
        if m.contains(k) { t.extend(ids); }
    }
    if e.eof() { t.extend(["C16", "C15", "C12"]); }
    if t.is_empty() { t.extend(["C12", "C16"]); }
    t
}

/// Compares an observation with the reference. `fail` is the reader error kind that replaces the unexpected end.
pub fn compare(ob: &Obs, ex: &Expect, o: &Opts, fail: Option<io::ErrorKind>) -> Bad {
    let mut bad: Bad = vec![];
    let mut add = |t: &[&'static str], m: String| bad.push((t.to_vec(), m));
    if let (Some(h), Some((w, _))) = (&ob.header, &ex.header) {
        if h.w != w.w || h.h != w.h || h.gpal != w.gpal { add(&["C04"], format!("screen/palette {:?}, expected {:?}", h, w)); }
        if h.bg != w.bg { add(&["C04"], format!("background {:?}, expected {:?} with a palette of {:?} bytes", h.bg, w.bg, w.gpal.as_ref().map(Vec::len))); }
    }
    match (&ob.header, &ex.header) {
        (Some(h), Some((w, sure))) => {
            let ok = *sure && ex.end != WEnd::Unspecified || !ex.frames.is_empty();
            if h.repeat != w.repeat && ok { add(&["C07"], format!("repeat {:?}, expected {:?}", h.repeat, w.repeat)); }
        }
        (None, Some((_, true))) => add(&tags_of_msg(match &ob.end { End::Err { msg, .. } => msg, _ => "" }, &ob.end), format!("opening failed with {:?}", ob.end)),
        (Some(_), None) => add(&["C04", "C16"], format!("opening succeeded, expected {:?}", ex.end)),
        _ => {}
    }
    let n = ob.frames.len().min(ex.frames.len());
    for k in 0..n {
        let f = &ob.frames[k];
        let Want::Frame { meta: m, pal, data, .. } = &ex.frames[k];
        let g = &f.meta;
        if (g.left, g.top, g.w, g.h) != (m.left, m.top, m.w, m.h) || g.lpal != m.lpal { add(&["C05"], format!("frame {k}: {g:?}, expected {m:?}")); }
        if g.interlaced != m.interlaced { add(&if f.mode == Mode::Read && !o.skip { vec!["C10"] } else { vec!["C05", "C13"] }, format!("frame {k}: interlaced {}", g.interlaced)); }
        if (g.delay, g.dispose, g.user, g.transparent) != (m.delay, m.dispose, m.user, m.transparent) { add(&["C06"], format!("frame {k}: {g:?}, expected {m:?}")); }
        if f.pal.as_ref() != Some(pal) { add(&["C05"], format!("frame {k}: relevant palette differs")); }
        let line = usize::from(m.w) * if o.rgba { 4 } else { 1 };
        if f.line != line || f.size != line * usize::from(m.h) { add(&["C12"], format!("frame {k}: buffer_size {} line_length {}", f.size, f.line)); }
        if let (Some(a), Some(b)) = (&f.data, data) {
            if a != b {
                let mut t = vec![];
                if o.skip { t.push("C13") } else {
                    let (mut x, mut y) = (a.clone(), b.clone());
                    let lines = |v: &mut Vec<u8>| { let mut r: Vec<Vec<u8>> = v.chunks(line.max(1)).map(<[u8]>::to_vec).collect(); r.sort(); *v = r.concat(); };
                    if m.interlaced || ex.frames.get(k).is_some() && f.mode == Mode::Read && matches!(f.mode, Mode::Read) {
                        lines(&mut x); lines(&mut y);
                        if x == y && a.len() == b.len() { t.push("C10") }
                    }
                    if o.rgba && a.len() == b.len() { t.push("C11"); }
                    if t.is_empty() || !o.rgba || a.len() != b.len() { t.push("C12") }
                    if !t.contains(&"C10") { t.push("C10i"); }
                }
                add(&t, format!("frame {k} ({:?}): data {} expected {}", f.mode, short(a), short(b)));
            }
        }
    }
    if ex.end == WEnd::Unspecified && ob.frames.len() >= ex.frames.len() { return bad; }
    // a frame that may or may not fail
    let may = |k: usize| ex.frames.get(k).is_some_and(|w| { let Want::Frame { may_fail, .. } = w; *may_fail });
    if ob.frames.len() < ex.frames.len() {
        if may(n) && matches!(ob.end, End::Err { .. }) { return bad; }
        if let (Some(got), Some(Want::Frame { meta: m, .. })) = (&ob.meta_only, ex.frames.get(n)) {
            if got != m { add(&["C05", "C06"], format!("frame {n} announced as {got:?}, expected {m:?}")); }
        }
        let t = match &ob.end { End::Err { msg, .. } => tags_of_msg(msg, &ob.end), End::Trailer => vec!["C16", "C15"], End::Capped => vec![] };
        if !t.is_empty() { add(&t, format!("frame {n} missing: {:?}, expected {} frames and {:?}", ob.end, ex.frames.len(), ex.end)); }
        return bad;
    }
    let reason = |e: &WEnd| -> Vec<&'static str> { match e {
        WEnd::Trailer => vec!["C16"], WEnd::Eof => vec!["C16", "C12"], WEnd::Truncated => vec!["C12"], WEnd::Mem => vec!["C09"], WEnd::AnyErr(_) => vec!["C14"], WEnd::Unspecified => vec![],
        WEnd::Stop(w) => match w { Why::Eof => vec!["C16"], Why::Magic => vec!["C04"], Why::UnknownBlock | Why::UnknownExt => vec!["C15"], Why::Control => vec!["C06"], Why::Bounds => vec!["C08"], Why::NoPalette => vec!["C05"], Why::CodeSize => vec!["C12", "C13"], Why::ExtLimit => vec!["C09"] } } };
    if ob.frames.len() > ex.frames.len() {
        add(&reason(&ex.end), format!("{} frames, expected {} and then {:?}", ob.frames.len(), ex.frames.len(), ex.end));
        return bad;
    }
    let ok = match (&ob.end, &ex.end) {
        (End::Trailer, WEnd::Trailer) => { if ob.again != "NNN" { add(&["C16"], format!("calls after the end: {}", ob.again)); } true }
        (End::Err { io, .. }, WEnd::Eof) => match fail { Some(k) => *io == Some(k), None => ob.end.eof() },
        (End::Err { .. }, WEnd::Stop(_) | WEnd::Truncated | WEnd::Mem) => match fail { Some(k) => if let End::Err { io, .. } = &ob.end { *io != Some(k) } else { true }, None => !ob.end.eof() },
        (End::Err { .. }, WEnd::AnyErr(_)) => true,
        (End::Capped, _) => true,
        _ => false,
    };
    if !ok {
        let mut t = reason(&ex.end);
        if let End::Err { msg, .. } = &ob.end { if ex.end == WEnd::Trailer { t.extend(tags_of_msg(msg, &ob.end)); } }
        if fail.is_some() { t.push("C16"); }
        add(&t, format!("ended with {:?}, expected {:?} (reader error {:?})", ob.end, ex.end, fail));
    }
    bad
}

// ------------------------------------------------------------------ low-level decoder

#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Bg(u8), Gpal(Vec<u8>), Start(u8), Sub(u8, Vec<u8>), Fin(u8, Vec<u8>), Rep(Repeat), HeaderEnd, Meta(Meta), Px(Vec<u8>), DataEnd, Err(bool), Stopped }

pub struct SObs { pub evs: Vec<Ev>, pub version: bool, pub w: u16, pub h: u16, pub stall: Option<String>, pub err: Option<DecodingError>, pub is_end: bool }

/// Feeds `d` in pieces. `outs`: sizes of output slices (0: `None`)
pub fn stream(d: &[u8], plan: &[usize], outs: &[usize]) -> SObs {
    let mut s = StreamingDecoder::new();
    let mut ob = SObs { evs: vec![], version: false, w: 0, h: 0, stall: None, err: None, is_end: true };
    let (mut i, mut k, mut q) = (0, 0, 0);
    let mut calls = 0usize;
    let mut avail = 0;
    let mut idle = 0;
    'o: while i < d.len() {
        if avail == 0 { avail = if plan.is_empty() { d.len() } else { plan[k % plan.len()].max(1) }.min(d.len() - i); k += 1; }
        let buf = &d[i..i + avail];
        let osz = outs[q % outs.len()];
        q += 1;
        let mut out = vec![0u8; osz];
        let r = if osz == 0 { s.update(buf, &mut OutputBuffer::None) } else { s.update(buf, &mut OutputBuffer::Slice(&mut out)) };
        calls += 1;
        match r {
            Err(e) => { ob.evs.push(Ev::Err(matches!(&e, DecodingError::Io(x) if x.kind() == io::ErrorKind::UnexpectedEof))); ob.err = Some(e); break 'o }
            Ok((n, ev)) => {
                if n > buf.len() { ob.stall = Some(format!("consumed {n} of {} bytes", buf.len())); break }
                if n == 0 && matches!(ev, Decoded::Nothing) { ob.stall = Some(format!("no progress at byte {i} (call {calls})")); break }
                idle = if n == 0 { idle + 1 } else { 0 };
                if idle > 70_000 { ob.stall = Some(format!("{idle} events without consuming anything at byte {i}")); break }
                match ev {
                    Decoded::Nothing | Decoded::LzwDataCopied(_) => {}
                    Decoded::BackgroundColor(b) => ob.evs.push(Ev::Bg(b)),
                    Decoded::GlobalPalette(p) => ob.evs.push(Ev::Gpal(p.to_vec())),
                    Decoded::BlockStart(b) => ob.evs.push(Ev::Start(b as u8)),
                    Decoded::Repetitions(r) => ob.evs.push(Ev::Rep(r)),
                    Decoded::HeaderEnd => ob.evs.push(Ev::HeaderEnd),
                    Decoded::SubBlockFinished(l) => { let (id, x, e) = s.last_ext(); ob.is_end &= !e && id == l; ob.evs.push(Ev::Sub(l.0, x.to_vec())) }
                    Decoded::BlockFinished(l) => { let (id, x, e) = s.last_ext(); ob.is_end &= e && id == l; ob.evs.push(Ev::Fin(l.0, x.to_vec())) }
                    Decoded::FrameMetadata(_) => { let m = meta(s.current_frame()); ob.evs.push(Ev::Meta(m)); ob.evs.push(Ev::Px(vec![])) }
                    Decoded::BytesDecoded(n) => {
                        if n.get() > osz { ob.stall = Some(format!("{} bytes decoded into {osz}", n.get())); break }
                        if let Some(Ev::Px(v)) = ob.evs.last_mut() { v.extend_from_slice(&out[..n.get()]); } else { ob.evs.push(Ev::Px(out[..n.get()].to_vec())) }
                    }
                    Decoded::DataEnd => ob.evs.push(Ev::DataEnd),
                    _ => {}
                }
                i += n;
                avail -= n;
            }
        }
    }
    ob.version = s.version() == Version::V89a;
    ob.w = s.width();
    ob.h = s.height();
    ob
}

/// Expected events (default options); the pixels of all images are read completely
pub fn stream_expect(d: &[u8], read_pixels: bool) -> (Vec<Ev>, bool) {
    let o = Opts::default_opts();
    let mut e = vec![];
    let g = match ref_parse(d, &o) {
        Ok(g) => g,
        Err(Why::Eof) => { return (e, false) }
        Err(_) => { e.push(Ev::Err(false)); return (e, true) }
    };
    e.push(Ev::Bg(g.bg));
    let Some(it0) = g.items.first() else { return (e, false) };
    if matches!(it0, Item::Stop(Why::Eof)) && !complete_palette(d) { return (e, false) }
    e.push(Ev::Gpal(g.gpal.clone().unwrap_or_default()));
    let mut he = false;
    for it in &g.items {
        let head = |e: &mut Vec<Ev>, he: &mut bool| if !*he { *he = true; e.push(Ev::HeaderEnd) };
        match it {
            Item::Trailer => { head(&mut e, &mut he); e.push(Ev::Start(0x3B)); return (e, true) }
            Item::Stop(Why::Eof) => return (e, false),
            Item::Stop(w) => match w {
                Why::UnknownExt => { e.push(Ev::Err(false)); return (e, true) }
                Why::UnknownBlock => { head(&mut e, &mut he); e.push(Ev::Err(false)); return (e, true) }
                Why::CodeSize | Why::Bounds => { head(&mut e, &mut he); e.push(Ev::Start(0x2C)); e.push(Ev::Err(false)); return (e, true) }
                Why::Control => { e.push(Ev::Start(0x21)); return (e, false) }
                _ => return (e, false),
            },
            Item::Unknown => return (e, false),
            Item::Ext { label, subs, complete, .. } => {
                e.push(Ev::Start(0x21));
                let mut data = vec![subs.first().map_or(0, |s| s.len() as u8)];
                for (k, s) in subs.iter().enumerate() {
                    data.extend(s);
                    if k + 1 < subs.len() && subs[k + 1].len() > 0 { e.push(Ev::Sub(*label, data.clone())); }
                }
                if !complete { return (e, false) }
                e.push(Ev::Fin(*label, data));
                if *label == 0xFF { if let Some(n) = netscape(subs) { e.push(Ev::Rep(if n == 0 { Repeat::Infinite } else { Repeat::Finite(n) })) } }
            }
            Item::Image(im) => {
                head(&mut e, &mut he);
                e.push(Ev::Start(0x2C));
                e.push(Ev::Meta(Meta { delay: im.delay, dispose: dispose_of(im.dispose) as u8, user: im.user, transparent: im.transparent, left: im.left, top: im.top, w: im.w, h: im.h, interlaced: im.interlaced, lpal: im.lpal.clone() }));
                let (pix, end) = lzw_decode(im.min, &im.lzw, 3 << 20);
                if end == LzwEnd::Bad || !(2..=8).contains(&im.min) || !im.complete { return (e, false) }
                e.push(Ev::Px(if read_pixels { pix } else { vec![] }));
                e.push(Ev::DataEnd);
            }
        }
    }
    (e, false)
}
fn complete_palette(d: &[u8]) -> bool { d.len() > 13 + if d[10] & 0x80 != 0 { 3 * (2 << (d[10] & 7)) } else { 0 } }

pub fn stream_compare(ob: &SObs, want: &[Ev], exact: bool) -> Bad {
    let mut bad: Bad = vec![];
    if let Some(s) = &ob.stall { bad.push((vec!["C02"], s.clone())); }
    for (k, w) in want.iter().enumerate() {
        let g = ob.evs.get(k);
        if g == Some(w) { continue }
        let mut tags = vec![];
        for x in [g, Some(w)].into_iter().flatten() {
            match x {
                Ev::Bg(_) | Ev::Gpal(_) => tags.push("C04"),
                Ev::Start(0x3B) => tags.extend(["C16", "C15"]),
                Ev::Start(_) | Ev::Sub(..) | Ev::Fin(..) | Ev::HeaderEnd => tags.push("C15"),
                Ev::Rep(_) => tags.push("C07"),
                Ev::Meta(m) => {
                    if let (Some(Ev::Meta(a)), Ev::Meta(b)) = (g, w) {
                        if (a.left, a.top, a.w, a.h, a.interlaced, &a.lpal) != (b.left, b.top, b.w, b.h, b.interlaced, &b.lpal) { tags.push("C05") }
                        if (a.delay, a.dispose, a.user, a.transparent) != (b.delay, b.dispose, b.user, b.transparent) { tags.push("C06") }
                    } else { let _ = m; tags.push("C15") }
                }
                Ev::Px(_) | Ev::DataEnd => tags.extend(["C12", "C15"]),
                Ev::Err(_) => if let Some(e) = &ob.err { tags.extend(tags_of_msg(&e.to_string(), &End::Trailer)); } else { tags.push("C15") },
                Ev::Stopped => {}
            }
        }
        bad.push((tags, format!("event {k}: {}, expected {}", trunc(&format!("{g:?}")), trunc(&format!("{w:?}")))));
        return bad;
    }
    if exact && ob.evs.len() != want.len() { bad.push((vec!["C15", "C16"], format!("extra event {}", trunc(&format!("{:?}", ob.evs[want.len()]))))); }
    if !ob.is_end { bad.push((vec!["C15"], "last_ext() disagrees with the event".into())); }
    bad
}
fn trunc(s: &str) -> String { if s.len() > 300 { format!("{}..", s.chars().take(300).collect::<String>()) } else { s.into() } }
