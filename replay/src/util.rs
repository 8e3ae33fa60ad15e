//! Random numbers, LZW reference codec, allocation tracking.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below((hi - lo + 1) as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn byte(&mut self) -> u8 { self.next() as u8 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len() as u64) as usize] }
    pub fn u16_any(&mut self) -> u16 {
        match self.below(6) {
            0 => *self.pick(&[0u16, 1, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff]),
            1 => self.below(4) as u16,
            2 => self.below(300) as u16,
            _ => self.next() as u16,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LzwEnd { EndCode, RanOut, Bad }

/// Straightforward GIF LZW decoder. Stops at the end code.
pub fn lzw_decode(min: u8, data: &[u8], limit: usize) -> (Vec<u8>, LzwEnd) {
    let clear = 1usize << min;
    let mut out: Vec<u8> = Vec::new();
    let mut table: Vec<Vec<u8>> = Vec::new();
    let reset = |t: &mut Vec<Vec<u8>>| { t.clear(); };
    let (mut size, mut prev): (u32, Option<Vec<u8>>) = (u32::from(min) + 1, None);
    let (mut acc, mut nbits) = (0u32, 0u32);
    let mut it = data.iter();
    loop {
        while nbits < size {
            match it.next() {
                Some(&b) => { acc |= u32::from(b) << nbits; nbits += 8; }
                None => return (out, LzwEnd::RanOut),
            }
        }
        let code = (acc & ((1 << size) - 1)) as usize;
        acc >>= size;
        nbits -= size;
        if code == clear { reset(&mut table); size = u32::from(min) + 1; prev = None; continue; }
        if code == clear + 1 { return (out, LzwEnd::EndCode); }
        let next = clear + 2 + table.len();
        let s = if code < clear { vec![code as u8] }
            else if prev.is_none() { return (out, LzwEnd::Bad) }
            else if code < next { table[code - clear - 2].clone() }
            else if code == next && next < 4096 {
                let mut s = prev.clone().unwrap(); let f = s[0]; s.push(f); s
            } else { return (out, LzwEnd::Bad) };
        out.extend_from_slice(&s);
        if out.len() > limit { return (out, LzwEnd::RanOut); }
        if let Some(mut p) = prev.take() {
            if next < 4096 {
                p.push(s[0]);
                table.push(p);
                if next + 1 == 1 << size && size < 12 { size += 1; }
            }
        }
        prev = Some(s);
    }
}

/// How a generated LZW stream deviates from the plain one
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct LzwStyle { pub first_clear: bool, pub random_clears: u64, pub end_code: bool, pub literals: bool, pub deferred: bool }

pub fn lzw_encode(min: u8, pixels: &[u8], st: LzwStyle, rng: &mut Rng) -> Vec<u8> {
    use std::collections::HashMap;
    let clear = 1u32 << min;
    let mut out = Vec::new();
    let (mut acc, mut nbits) = (0u64, 0u32);
    let mut size = u32::from(min) + 1;
    let mut dict: HashMap<(u32, u8), u32> = HashMap::new();
    let mut next = clear + 2;
    // number of codes since the clear: the decoder adds an entry for each but the first one
    macro_rules! put { ($c:expr) => {{ acc |= u64::from($c) << nbits; nbits += size; while nbits >= 8 { out.push(acc as u8); acc >>= 8; nbits -= 8; } }} }
    if st.first_clear { put!(clear); }
    let mut dec_next = clear + 2; // next entry in the decoder
    let mut first = true;
    let mut i = 0;
    while i < pixels.len() {
        let mut cur = u32::from(pixels[i]);
        let mut j = i + 1;
        if !st.literals {
            while j < pixels.len() {
                match dict.get(&(cur, pixels[j])) { Some(&c) => { cur = c; j += 1; } None => break }
            }
        }
        put!(cur);
        if first { first = false } else if dec_next < 4096 {
            dec_next += 1;
            if dec_next == 1 << size && size < 12 { size += 1; }
        }
        if j < pixels.len() && next < 4096 && !st.literals { dict.insert((cur, pixels[j]), next); }
        if next < 4096 { next += 1; }
        i = j;
        let full = next >= 4096 && !st.deferred;
        if full || (st.random_clears > 0 && rng.below(st.random_clears) == 0) {
            put!(clear);
            dict.clear(); next = clear + 2; dec_next = clear + 2; size = u32::from(min) + 1; first = true;
        }
    }
    if st.end_code { put!(clear + 1); }
    if nbits > 0 { out.push(acc as u8); }
    out
}

// ---- allocation tracking (largest single request per thread) ----
pub struct Track;
thread_local! { static MAX: Cell<usize> = const { Cell::new(0) }; }
pub fn alloc_reset() { MAX.with(|m| m.set(0)); }
pub fn alloc_max() -> usize { MAX.with(|m| m.get()) }
fn note(n: usize) { let _ = MAX.try_with(|m| if n > m.get() { m.set(n) }); }
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); System.realloc(p, l, n) }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b { s.push_str(&format!("{x:02x}")); }
    s
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 48 { format!("[{}] {}", b.len(), hex(b)) } else { format!("[{}] {}..", b.len(), hex(&b[..48])) }
}
