//! Independent description of GIF streams: generator and reference parser.
use crate::util::*;

#[derive(Clone, Debug)]
pub struct Opts { pub rgba: bool, pub limit: Option<u64>, pub bounds: bool, pub skip: bool, pub end_code: bool, pub unknown: bool,
    /// how the options are handed over: 0 each once, 1 with the opposite set before, 2 only what differs from the default
    pub how: u8 }
impl Opts {
    pub fn default_opts() -> Self { Opts { rgba: false, limit: Some(50_000_000), bounds: false, skip: false, end_code: false, unknown: false, how: 0 } }
}

/// What the generator should concentrate on
#[derive(Clone, Copy, Debug)]
pub struct Bias {
    pub frames: usize, pub max_side: usize, pub exts: u64, pub unknown: bool, pub bad_lzw: bool, pub mutate: bool,
    pub interlace: u64, pub no_end: u64, pub short: u64, pub long: u64, pub bounds: bool, pub netscape: bool, pub big_ext: bool, pub zero_area: bool,
    pub errors: bool,
}
impl Bias {
    pub fn plain() -> Self {
        Bias { frames: 3, max_side: 20, exts: 3, unknown: false, bad_lzw: false, mutate: false, interlace: 3, no_end: 8, short: 10, long: 5, bounds: false, netscape: false, big_ext: false, zero_area: false, errors: true }
    }
}

fn put16(v: &mut Vec<u8>, x: u16) { v.push(x as u8); v.push((x >> 8) as u8); }

/// Splits `d` into sub-blocks and writes them with a terminator
fn put_blocks(v: &mut Vec<u8>, d: &[u8], rng: &mut Rng) {
    let style = rng.below(4);
    let mut i = 0;
    while i < d.len() {
        let n = match style { 0 => 255, 1 => 1, 2 => rng.range(1, 8), _ => rng.range(1, 255) }.min(d.len() - i);
        v.push(n as u8);
        v.extend_from_slice(&d[i..i + n]);
        i += n;
    }
    v.push(0);
}

pub fn gen_ext(v: &mut Vec<u8>, rng: &mut Rng, b: &Bias) {
    let kind = if b.netscape { rng.below(3) } else { rng.below(9) };
    v.push(0x21);
    match kind {
        0 | 1 => { // application
            v.push(0xFF);
            let mut id = b"NETSCAPE2.0".to_vec();
            let mut sub = vec![1u8];
            let count = rng.u16_any();
            put16(&mut sub, count);
            match rng.below(6) {
                0 => { let k = rng.below(11) as usize; id[k] ^= 1 << rng.below(8); }
                1 => sub[0] = rng.byte(),
                2 => { let n = rng.below(3) as usize; sub.truncate(n); }
                3 => { let n = rng.range(1, 5); sub.extend(rng.bytes(n)); }
                _ => {}
            }
            v.push(id.len() as u8); v.extend(&id);
            if !sub.is_empty() { v.push(sub.len() as u8); v.extend(&sub); }
            if rng.chance(1, 8) { let n = rng.range(1, 9); v.push(n as u8); v.extend(rng.bytes(n)); }
            v.push(0);
        }
        2 | 3 | 4 => { // control
            v.push(0xF9);
            v.push(4);
            v.push(match rng.below(3) { 0 => rng.byte(), 1 => (rng.below(8) << 2) as u8 | 1, _ => (rng.below(8) << 2) as u8 | rng.below(4) as u8 });
            let d = rng.u16_any();
            put16(v, d);
            v.push(if rng.chance(1, 2) { rng.below(6) as u8 } else { rng.byte() });
            if b.errors && rng.chance(1, 30) { v.push(2); v.push(1); v.push(2); }
            v.push(0);
        }
        5 if b.errors && rng.chance(1, 6) => { // control of another length
            v.push(0xF9);
            let n = rng.below(8) as usize;
            let d = rng.bytes(n);
            put_blocks(v, &d, rng);
        }
        6 if b.errors && rng.chance(1, 6) => { // any label
            v.push(rng.byte());
            let n = rng.below(20) as usize;
            let d = rng.bytes(n);
            put_blocks(v, &d, rng);
        }
        _ => {
            v.push(*rng.pick(&[0x01u8, 0xFE, 0xFE]));
            let n = match rng.below(6) { 0 => 0, 1 => 255, 2 => 256, 3 => rng.range(1, 700), _ => rng.range(1, 30) } * if b.big_ext { 4 } else { 1 };
            let d = rng.bytes(n);
            put_blocks(v, &d, rng);
        }
    }
}

fn palette(v: &mut Vec<u8>, rng: &mut Rng) -> u8 {
    let n = if rng.chance(1, 6) { 7 } else { rng.below(5) as u8 };
    let k = 3 * (2usize << n);
    v.extend(rng.bytes(k));
    n
}

pub fn gen_gif(rng: &mut Rng, b: &Bias) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(if rng.chance(1, 2) { b"GIF89a" } else { b"GIF87a" });
    if b.errors && rng.chance(1, 60) { let k = rng.below(6) as usize; v[k] ^= 1 << rng.below(8); }
    let (sw, sh) = if b.bounds { (rng.u16_any(), rng.u16_any()) } else if rng.chance(1, 4) { (rng.u16_any(), rng.u16_any()) } else { (rng.range(1, 60) as u16, rng.range(1, 60) as u16) };
    put16(&mut v, sw);
    put16(&mut v, sh);
    let gflag = v.len();
    v.push(0);
    v.push(if rng.chance(1, 2) { rng.byte() } else { rng.below(5) as u8 });
    v.push(rng.byte());
    let mut gflags = rng.byte() & 0x7F;
    let has_global = rng.chance(3, 4);
    if has_global { let n = palette(&mut v, rng); gflags = (gflags & 0xF8) | 0x80 | n; }
    v[gflag] = gflags;
    let frames = if rng.chance(1, 12) { 0 } else { rng.range(1, b.frames) };
    for k in 0..=frames {
        while rng.below(5) < b.exts.min(4) { gen_ext(&mut v, rng, b); if rng.chance(1, 2) { break } }
        if b.unknown && rng.chance(1, 4) {
            let mut t = rng.byte();
            if matches!(t, 0x21 | 0x2C | 0x3B) { t ^= 0x40; }
            v.push(t);
            let n = match rng.below(4) { 0 => 0, 1 => 300, _ => rng.range(1, 40) };
            let mut d = rng.bytes(n);
            if rng.chance(1, 2) { d = b"\x0bNETSCAPE2.0\x01\x05\x00"[rng.below(2) as usize..].to_vec(); }
            put_blocks(&mut v, &d, rng);
        }
        if k == frames { break; }
        gen_image(&mut v, rng, b, has_global, (sw, sh));
    }
    if !rng.chance(1, 12) { v.push(0x3B); if rng.chance(1, 4) { let n = rng.range(1, 20); v.extend(rng.bytes(n)); } }
    if b.mutate {
        for _ in 0..rng.below(4) {
            if v.is_empty() { break; }
            let i = rng.below(v.len() as u64) as usize;
            match rng.below(5) {
                0 => v[i] ^= 1 << rng.below(8),
                1 => v[i] = rng.byte(),
                2 => v.truncate(i),
                3 => { v.remove(i); }
                _ => { let x = rng.byte(); v.insert(i, x); }
            }
        }
        if rng.chance(1, 25) { let n = rng.below(60) as usize; v = rng.bytes(n); if rng.chance(1, 2) { let mut p = b"GIF89a".to_vec(); p.extend(v); v = p; } }
    }
    v
}

fn gen_image(v: &mut Vec<u8>, rng: &mut Rng, b: &Bias, has_global: bool, screen: (u16, u16)) {
    v.push(0x2C);
    let (mut w, mut h) = (rng.range(1, b.max_side) as u16, rng.range(1, b.max_side) as u16);
    let (mut l, mut t) = (rng.below(10) as u16, rng.below(10) as u16);
    if rng.chance(1, 5) { l = rng.u16_any(); t = rng.u16_any(); }
    if b.bounds {
        // around the boundary
        let near = |rng: &mut Rng, s: u16, x: u16| -> u16 { let d = rng.range(0, 2) as i64 - 1; (i64::from(s) - i64::from(x) + d).clamp(0, 65535) as u16 };
        if rng.chance(3, 4) { l = near(rng, screen.0, w); }
        if rng.chance(3, 4) { t = near(rng, screen.1, h); }
        if rng.chance(1, 4) { l = rng.u16_any(); }
        if rng.chance(1, 6) { w = rng.u16_any(); h = 1; if rng.chance(1, 2) { l = (u32::from(screen.0) + 65536 - u32::from(w)) as u16; } }
    }
    if b.zero_area && rng.chance(1, 10) { if rng.chance(1, 2) { w = 0 } else { h = 0 } }
    if b.zero_area && rng.chance(1, 30) { w = rng.u16_any(); h = rng.u16_any(); }
    put16(v, l); put16(v, t); put16(v, w); put16(v, h);
    let fl = v.len();
    v.push(0);
    let mut flags = rng.byte() & 0x3F;
    if b.interlace > 0 && rng.chance(1, b.interlace) { flags |= 0x40; }
    if rng.chance(1, 3) || (!has_global && !rng.chance(1, 15)) { let n = palette(v, rng); flags = (flags & 0xF8) | 0x80 | n; }
    v[fl] = flags;
    let min = match rng.below(12) { 0 if b.bad_lzw => 1, 0 => 2, 1..=6 => rng.range(2, 5) as u8, _ => rng.range(2, 8) as u8 };
    let total = usize::from(w) * usize::from(h);
    let mut count = total.min(70_000);
    if b.short > 0 && rng.chance(1, b.short) { count = rng.below(count as u64 + 1) as usize; }
    else if b.long > 0 && rng.chance(1, b.long) { count += rng.range(1, 600); }
    let max = 1u64 << min;
    let pat = rng.below(3);
    let fixed = rng.below(max) as u8;
    let pixels: Vec<u8> = (0..count).map(|i| match pat { 0 => rng.below(max) as u8, 1 => fixed, _ => ((i / 3) as u64 % max) as u8 }).collect();
    let st = LzwStyle {
        first_clear: !rng.chance(1, 10), random_clears: if rng.chance(1, 5) { rng.range(1, 40) as u64 } else { 0 },
        end_code: !(b.no_end > 0 && rng.chance(1, b.no_end)), literals: rng.chance(1, 8), deferred: rng.chance(1, 3),
    };
    let mut data = lzw_encode(min, &pixels, st, rng);
    if rng.chance(1, 25) { let n = rng.range(1, 300); data.extend(rng.bytes(n)); }
    if b.bad_lzw && rng.chance(1, 3) && !data.is_empty() { for _ in 0..rng.range(1, 4) { let i = rng.below(data.len() as u64) as usize; data[i] = rng.byte(); } }
    if rng.chance(1, 40) { data.clear(); }
    v.push(if b.errors && rng.chance(1, 50) { rng.range(0, 14) as u8 } else { min });
    put_blocks(v, &data, rng);
}

// ---------------------------------------------------------------------------------- reference

#[derive(Clone, Debug, PartialEq)]
pub enum Why { Eof, Magic, UnknownBlock, UnknownExt, Control, Bounds, NoPalette, CodeSize, ExtLimit }

#[derive(Clone, Debug)]
pub struct RImage {
    pub delay: u16, pub dispose: u8, pub user: bool, pub transparent: Option<u8>,
    pub left: u16, pub top: u16, pub w: u16, pub h: u16, pub interlaced: bool, pub lpal: Option<Vec<u8>>,
    pub min: u8, pub lzw: Vec<u8>,
    /// all sub-blocks and the terminator are there
    pub complete: bool,
}
#[derive(Clone, Debug)]
pub enum Item {
    Ext { label: u8, subs: Vec<Vec<u8>>, complete: bool, empty: bool },
    Unknown,
    Image(Box<RImage>),
    Trailer,
    Stop(Why),
}
#[derive(Clone, Debug)]
pub struct RGif { pub v89: bool, pub w: u16, pub h: u16, pub bg: u8, pub gpal: Option<Vec<u8>>, pub items: Vec<Item> }

struct P<'a> { d: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.d.len() - self.i < n { return None; }
        self.i += n;
        Some(&self.d[self.i - n..self.i])
    }
    fn u8(&mut self) -> Option<u8> { self.take(1).map(|x| x[0]) }
    /// sub-blocks up to the terminator; the last one may be cut off
    fn subs(&mut self) -> (Vec<Vec<u8>>, bool) {
        let mut r = Vec::new();
        loop {
            match self.u8() {
                None => return (r, false),
                Some(0) => return (r, true),
                Some(n) => match self.take(usize::from(n)) {
                    Some(x) => r.push(x.to_vec()),
                    None => { r.push(self.d[self.i..].to_vec()); self.i = self.d.len(); return (r, false) }
                }
            }
        }
    }
}
fn le(x: &[u8]) -> u16 { u16::from(x[0]) + 256 * u16::from(x[1]) }

/// Parses a whole file. `Err` when it ends (or fails) before the screen descriptor is complete.
pub fn ref_parse(d: &[u8], o: &Opts) -> Result<RGif, Why> {
    let mut p = P { d, i: 0 };
    let magic = p.take(6).ok_or(Why::Eof)?;
    let v89 = match magic { b"GIF87a" => false, b"GIF89a" => true, _ => return Err(Why::Magic) };
    let s = p.take(7).ok_or(Why::Eof)?;
    let mut g = RGif { v89, w: le(s), h: le(&s[2..]), bg: s[5], gpal: None, items: vec![] };
    if s[4] & 0x80 != 0 {
        match p.take(3 * (2 << (s[4] & 7))) { Some(t) => g.gpal = Some(t.to_vec()), None => return Err(Why::Eof) }
    }
    let stop = |g: &mut RGif, w: Why| g.items.push(Item::Stop(w));
    let mut gce: Option<(u16, u8, bool, Option<u8>)> = None;
    loop {
        let Some(t) = p.u8() else { stop(&mut g, Why::Eof); return Ok(g) };
        match t {
            0x3B => { g.items.push(Item::Trailer); return Ok(g) }
            0x21 => {
                let Some(label) = p.u8() else { stop(&mut g, Why::Eof); return Ok(g) };
                if !matches!(label, 0x01 | 0xF9 | 0xFE | 0xFF) { stop(&mut g, Why::UnknownExt); return Ok(g) }
                let start = p.i;
                let (subs, complete) = p.subs();
                let n: usize = subs.iter().map(Vec::len).sum();
                if n > 0 && o.limit.is_some_and(|l| (n as u64) + 1 > l) { stop(&mut g, Why::ExtLimit); return Ok(g) }
                let empty = p.i == start;
                if complete && label == 0xF9 {
                    let c = subs.concat();
                    if c.len() == 4 {
                        gce = Some((le(&c[1..]), (c[0] >> 2) & 7, c[0] & 2 != 0, if c[0] & 1 != 0 { Some(c[3]) } else { None }));
                    } else { stop(&mut g, Why::Control); return Ok(g) }
                }
                g.items.push(Item::Ext { label, subs, complete, empty });
                if !complete { stop(&mut g, Why::Eof); return Ok(g) }
            }
            0x2C => {
                let Some(h) = p.take(9) else { stop(&mut g, Why::Eof); return Ok(g) };
                let c = gce.take().unwrap_or((0, 1, false, None));
                let mut im = RImage { delay: c.0, dispose: c.1, user: c.2, transparent: c.3, left: le(h), top: le(&h[2..]), w: le(&h[4..]), h: le(&h[6..]),
                    interlaced: h[8] & 0x40 != 0, lpal: None, min: 0, lzw: vec![], complete: false };
                if o.bounds && (u32::from(im.left) + u32::from(im.w) > u32::from(g.w) || u32::from(im.top) + u32::from(im.h) > u32::from(g.h)) {
                    stop(&mut g, Why::Bounds); return Ok(g)
                }
                if h[8] & 0x80 != 0 {
                    let Some(t) = p.take(3 * (2 << (h[8] & 7))) else { stop(&mut g, Why::Eof); return Ok(g) };
                    im.lpal = Some(t.to_vec());
                }
                let Some(m) = p.u8() else { stop(&mut g, Why::Eof); return Ok(g) };
                im.min = m;
                if p.i == p.d.len() { stop(&mut g, Why::Eof); return Ok(g) }
                if !(1..=11).contains(&m) { stop(&mut g, Why::CodeSize); return Ok(g) }
                let (subs, complete) = p.subs();
                im.lzw = subs.concat();
                im.complete = complete;
                g.items.push(Item::Image(Box::new(im)));
                if !complete { stop(&mut g, Why::Eof); return Ok(g) }
            }
            _ => {
                if !o.unknown {
                    // the next byte is needed to start looking at the block
                    let w = if p.i == p.d.len() { Why::Eof } else { Why::UnknownBlock };
                    stop(&mut g, w); return Ok(g)
                }
                let (subs, complete) = p.subs();
                let n: usize = subs.iter().map(Vec::len).sum();
                if o.limit.is_some_and(|l| n as u64 > l) { stop(&mut g, Why::ExtLimit); return Ok(g) }
                g.items.push(Item::Unknown);
                if !complete { stop(&mut g, Why::Eof); return Ok(g) }
            }
        }
    }
}

pub fn netscape(subs: &[Vec<u8>]) -> Option<u16> {
    let c = subs.concat();
    if c.len() >= 14 && &c[..12] == b"NETSCAPE2.0\x01" { Some(le(&c[12..])) } else { None }
}

pub fn dispose_of(x: u8) -> gif::DisposalMethod {
    match x { 1 => gif::DisposalMethod::Keep, 2 => gif::DisposalMethod::Background, 3 => gif::DisposalMethod::Previous, _ => gif::DisposalMethod::Any }
}

/// Row order of an interlaced image
pub fn rows(h: usize) -> Vec<usize> {
    let mut r = Vec::new();
    for (s, d) in [(0, 8), (4, 8), (2, 4), (1, 2)] { let mut y = s; while y < h { r.push(y); y += d; } }
    r
}
pub fn deinterlace(px: &[u8], line: usize, h: usize) -> Vec<u8> {
    let mut out = vec![0; px.len()];
    for (k, y) in rows(h).into_iter().enumerate() { out[y * line..(y + 1) * line].copy_from_slice(&px[k * line..(k + 1) * line]); }
    out
}
/// `under` is what the bytes had before
pub fn expand(px: &[u8], pal: &[u8], tr: Option<u8>, under: u8) -> Vec<u8> {
    let mut o = Vec::with_capacity(px.len() * 4);
    for &i in px {
        let k = usize::from(i) * 3;
        if k + 3 <= pal.len() { o.extend_from_slice(&pal[k..k + 3]); o.push(if tr == Some(i) { 0 } else { 255 }); } else { o.extend_from_slice(&[under; 4]); }
    }
    o
}
