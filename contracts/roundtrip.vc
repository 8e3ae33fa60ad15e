//// file reader/mod.rs
//// tail props=C25
// What the decoder makes of what the encoder writes (C25)
verus!{
pub open spec fn hears(h: Head, e: Ev, f: Ev) -> Head { hear(hear(h, e), f) }
proof fn lemma_one(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head, c: int, e: Ev, a1: Abs)
    requires s.len() > 0, !data_state(a.st), step(cfg, a, s) == Res::Step(c, e, a1), 0 <= c <= s.len(), stops(e) || c > 0 || rank2(a1.st) < rank2(a.st),
    ensures scan(cfg, a, s, h) == if stops(e) { Scan { at: c, ev: e, a: a1, h: hear(h, e), bad: false } } else { later(c, scan(cfg, a1, s.skip(c), hear(h, e))) }
{}
proof fn one_blockend(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head)
    requires a.st is BlockEnd, s.len() > 0, s[0] != 0x3B,
    ensures scan(cfg, a, s, h) == later(1, scan(cfg, Abs { st: State::BlockStart(s[0]), ..a }, s.skip(1), h))
{ reveal(step); lemma_one(cfg, a, s, h, 1, Ev::Nothing, Abs { st: State::BlockStart(s[0]), ..a }); }
proof fn one_ext(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head)
    requires a.st == State::BlockStart(0x21), s.len() > 0, crate::common::known_ext(s[0]) is Some,
    ensures scan(cfg, a, s, h) == later(1, scan(cfg, Abs { st: State::ExtensionBlockStart, id: s[0], ext: Seq::empty(), ..a }, s.skip(1), h))
{ reveal(step); lemma_one(cfg, a, s, h, 1, Ev::BlockStart(crate::common::Block::Extension), Abs { st: State::ExtensionBlockStart, id: s[0], ext: Seq::empty(), ..a }); }
proof fn one_extstart(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head)
    requires a.st is ExtensionBlockStart, s.len() > 0, s[0] != 0,
    ensures scan(cfg, a, s, h) == later(1, scan(cfg, Abs { st: State::ExtensionDataBlock(s[0] as usize), ext: a.ext.push(s[0]), ..a }, s.skip(1), h))
{ reveal(step); lemma_one(cfg, a, s, h, 1, Ev::Nothing, Abs { st: State::ExtensionDataBlock(s[0] as usize), ext: a.ext.push(s[0]), ..a }); }
proof fn one_extdata(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head, n: usize)
    requires a.st == State::ExtensionDataBlock(n), 0 < n <= s.len(), within(cfg.limit, (a.ext.len() + n) as nat),
    ensures scan(cfg, a, s, h) == later(n as int, scan(cfg, Abs { st: State::ExtensionDataBlock(0), ext: a.ext + s.take(n as int), ..a }, s.skip(n as int), h))
{ reveal(step); lemma_one(cfg, a, s, h, n as int, Ev::Nothing, Abs { st: State::ExtensionDataBlock(0), ext: a.ext + s.take(n as int), ..a }); }
proof fn one_sub(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head)
    requires a.st == State::ExtensionDataBlock(0), s.len() > 0, s[0] != 0,
    ensures scan(cfg, a, s, h) == later(1, scan(cfg, Abs { st: State::ExtensionDataBlock(s[0] as usize), ext_end: false, ..a }, s.skip(1), h))
{ reveal(step); lemma_one(cfg, a, s, h, 1, Ev::Sub(a.id), Abs { st: State::ExtensionDataBlock(s[0] as usize), ext_end: false, ..a }); }
proof fn one_control(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head)
    requires a.st == State::ExtensionDataBlock(0), s.len() > 0, s[0] == 0, a.id == 0xF9, a.ext.len() == 5,
    ensures scan(cfg, a, s, h) == later(1, scan(cfg, Abs { st: State::BlockEnd, ext_end: true, cur: Some(control(a.cur, a.ext)), ..a }, s.skip(1), h))
{ reveal(step); lemma_one(cfg, a, s, h, 1, Ev::Blk(a.id), Abs { st: State::BlockEnd, ext_end: true, cur: Some(control(a.cur, a.ext)), ..a }); }
proof fn one_app(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head)
    requires a.st == State::ExtensionDataBlock(0), s.len() > 0, s[0] == 0, a.id == 0xFF, a.ext.len() == 15, a.ext.subrange(1, 13) =~= netscape(),
    ensures scan(cfg, a, s, h) == later(1, scan(cfg, Abs { st: State::BlockEnd, ext_end: true, ..a }, s.skip(1), hear(h, Ev::Repetitions(repeat_of(le16_at(a.ext, 13))))))
{
    reveal(step);
    let a1 = Abs { st: State::ApplicationExtension, ext_end: true, ..a };
    lemma_one(cfg, a, s, h, 0, Ev::Blk(a.id), a1); assert(s.skip(0) =~= s);
    lemma_one(cfg, a1, s, h, 1, Ev::Repetitions(repeat_of(le16_at(a.ext, 13))), Abs { st: State::BlockEnd, ..a1 });
}
proof fn lemma_later(c: int, d: int, s: Scan) ensures later(c, later(d, s)) == later(c + d, s) {}
/// state behind a graphic control extension
pub open spec fn behind_control(a: Abs, e: Seq<u8>) -> Abs { Abs { st: State::BlockEnd, id: 0xF9, ext: e, ext_end: true, cur: Some(control(a.cur, e)), ..a } }
pub open spec fn control_fields(flags: u8, delay: u16, trns: u8) -> Seq<u8> { seq![4u8, flags, (delay % 256) as u8, (delay / 256) as u8, trns] }
#[verifier::spinoff_prover]
pub proof fn lemma_control(cfg: Cfg, a: Abs, flags: u8, delay: u16, trns: u8, t: Seq<u8>, h: Head)
    requires a.st is BlockEnd, within(cfg.limit, 5),
    ensures scan(cfg, a, control_bytes(flags, delay, trns) + t, h) == later(8, scan(cfg, behind_control(a, control_fields(flags, delay, trns)), t, h)), control_bytes(flags, delay, trns).len() == 8,
{
    hide(scan); hide(control);
    let s = control_bytes(flags, delay, trns) + t; let e = control_fields(flags, delay, trns);
    let a1 = Abs { st: State::BlockStart(0x21), ..a };
    one_blockend(cfg, a, s, h);
    let a2 = Abs { st: State::ExtensionBlockStart, id: 0xF9, ext: Seq::empty(), ..a1 };
    one_ext(cfg, a1, s.skip(1), h); assert(s.skip(1).skip(1) =~= s.skip(2));
    let a3 = Abs { st: State::ExtensionDataBlock(4), ext: seq![4u8], ..a2 }; assert(Seq::<u8>::empty().push(4u8) =~= seq![4u8]);
    one_extstart(cfg, a2, s.skip(2), h); assert(s.skip(2).skip(1) =~= s.skip(3));
    let a4 = Abs { st: State::ExtensionDataBlock(0), ext: e, ..a3 }; assert(seq![4u8] + s.skip(3).take(4) =~= e);
    one_extdata(cfg, a3, s.skip(3), h, 4); assert(s.skip(3).skip(4) =~= s.skip(7));
    one_control(cfg, a4, s.skip(7), h); assert(s.skip(7).skip(1) =~= t);
    assert(Abs { st: State::BlockEnd, ext_end: true, cur: Some(control(a4.cur, a4.ext)), ..a4 } == behind_control(a, e));
}
pub open spec fn behind_repeat(a: Abs, e: Seq<u8>) -> Abs { Abs { st: State::BlockEnd, id: 0xFF, ext: e, ext_end: true, ..a } }
pub open spec fn repeat_fields(n: u16) -> Seq<u8> { seq![11u8] + netscape() + seq![(n % 256) as u8, (n / 256) as u8] }
pub open spec fn repeat_of(n: u16) -> Repeat { if n == 0 { Repeat::Infinite } else { Repeat::Finite(n) } }
#[verifier::spinoff_prover]
pub proof fn lemma_repeat(cfg: Cfg, a: Abs, n: u16, t: Seq<u8>, h: Head)
    requires a.st is BlockEnd, within(cfg.limit, 15),
    ensures scan(cfg, a, repeat_bytes(n) + t, h) == later(19, scan(cfg, behind_repeat(a, repeat_fields(n)), t, hear(h, Ev::Repetitions(repeat_of(n))))), repeat_bytes(n).len() == 19,
{
    hide(scan);
    let s = repeat_bytes(n) + t; let e = repeat_fields(n); assert(s.len() == 19 + t.len());
    assert(within(cfg.limit, 12));
    let a1 = Abs { st: State::BlockStart(0x21), ..a };
    one_blockend(cfg, a, s, h);
    let a2 = Abs { st: State::ExtensionBlockStart, id: 0xFF, ext: Seq::empty(), ..a1 };
    one_ext(cfg, a1, s.skip(1), h); assert(s.skip(1).skip(1) =~= s.skip(2));
    let a3 = Abs { st: State::ExtensionDataBlock(11), ext: seq![11u8], ..a2 }; assert(Seq::<u8>::empty().push(11u8) =~= seq![11u8]);
    one_extstart(cfg, a2, s.skip(2), h); assert(s.skip(2).skip(1) =~= s.skip(3));
    let a4 = Abs { st: State::ExtensionDataBlock(0), ext: e.take(12), ..a3 }; assert(seq![11u8] + s.skip(3).take(11) =~= e.take(12));
    one_extdata(cfg, a3, s.skip(3), h, 11); assert(s.skip(3).skip(11) =~= s.skip(14));
    let a5 = Abs { st: State::ExtensionDataBlock(3), ext_end: false, ..a4 };
    one_sub(cfg, a4, s.skip(14), h); assert(s.skip(14).skip(1) =~= s.skip(15));
    let a6 = Abs { st: State::ExtensionDataBlock(0), ext: e, ..a5 }; assert(e.take(12) + s.skip(15).take(3) =~= e);
    one_extdata(cfg, a5, s.skip(15), h, 3); assert(s.skip(15).skip(3) =~= s.skip(18));
    assert(e.subrange(1, 13) =~= netscape()); assert(le16_at(e, 13) == n);
    one_app(cfg, a6, s.skip(18), h); assert(s.skip(18).skip(1) =~= t);
}
pub open spec fn behind_header(w: u16, h: u16) -> Abs { Abs { st: State::BlockEnd, ver: Version::V89a, w, h, ..abs0() } }
pub open spec fn header_len(p: Seq<u8>) -> int { 13 + 3 * table_entries(table_flag(colors(p))) as int }
pub open spec fn head_of(p: Seq<u8>) -> Head { Head { bg: Some(0), pal: Some(table_bytes(p)), rep: Repeat::Finite(0) } }
#[verifier::spinoff_prover]
pub proof fn lemma_header(cfg: Cfg, w: u16, h: u16, p: Seq<u8>, t: Seq<u8>)
    requires colors(p) <= 256, t.len() > 0,
    ensures scan(cfg, abs0(), header_bytes(w, h, p) + t, head0()) == later(header_len(p), scan(cfg, behind_header(w, h), t, head_of(p))),
        header_bytes(w, h, p).len() == header_len(p),
{
    reveal(step);
    let s = header_bytes(w, h, p) + t; let flag = table_flag(colors(p)); let flags = (0x80 + 17 * flag) as u8; let n = 3 * table_entries(flag); let tab = table_bytes(p);
    assert(tab.len() == n); assert(flags % 8 == flag % 8) by (nonlinear_arith) requires flags == 0x80 + 17 * flag, 0 <= flag <= 7;
    assert(pal_size(flags) == n);
    let a0 = abs0(); let h0 = head0();
    assert(got(a0, s, 6) =~= seq![0x47u8, 0x49, 0x46, 0x38, 0x39, 0x61]);
    assert(seq![0x47u8, 0x49, 0x46, 0x38, 0x39, 0x61][4] != seq![0x47u8, 0x49, 0x46, 0x38, 0x37, 0x61][4]);
    let a1 = Abs { st: State::ScreenDescriptor, has: Seq::empty(), ver: Version::V89a, ..a0 };
    lemma_one(cfg, a0, s, h0, 6, Ev::Nothing, a1);
    let g = got(a1, s.skip(6), 7); assert(g =~= le16(w) + le16(h) + seq![flags, 0u8, 0u8]); assert(le16_at(g, 0) == w && le16_at(g, 2) == h);
    let a2 = Abs { st: State::GlobalPalette(n as usize), w, h, ..a1 };
    let h1 = hear(h0, Ev::BackgroundColor(0));
    lemma_one(cfg, a1, s.skip(6), h0, 7, Ev::BackgroundColor(0), a2); assert(s.skip(6).skip(7) =~= s.skip(13));
    let a3 = Abs { st: State::GlobalPalette(0), gpal: tab, ..a2 }; assert(a2.gpal + s.skip(13).take(n as int) =~= tab);
    lemma_one(cfg, a2, s.skip(13), h1, n as int, Ev::Nothing, a3); assert(s.skip(13).skip(n as int) =~= t);
    let a4 = Abs { st: State::BlockStart(t[0]), gpal: Seq::empty(), ..a3 }; let c = if t[0] == 0x3B { 0int } else { 1 };
    lemma_one(cfg, a3, t, h1, c, Ev::GlobalPalette(tab), a4);
    let b = behind_header(w, h); assert(abs0().gpal =~= Seq::<u8>::empty()); assert(abs0().has =~= Seq::<u8>::empty());
    assert(Abs { st: State::BlockStart(t[0]), ..b } == a4);
    lemma_one(cfg, b, t, head_of(p), c, Ev::Nothing, a4);
    assert(hear(h1, Ev::GlobalPalette(tab)) == head_of(p));
}
/// the trailer, behind the header of an animation with or without frames
pub proof fn lemma_trailer(cfg: Cfg, a: Abs, t: Seq<u8>, h: Head)
    requires a.st is BlockEnd || a.st == State::BlockStart(0x3B), t.len() > 0, t[0] == 0x3B,
    ensures scan(cfg, a, t, h) == if a.started { Scan { at: 1, ev: Ev::BlockStart(crate::common::Block::Trailer), a: Abs { st: State::Trailer, ..a }, h, bad: false } } else { Scan { at: 0, ev: Ev::HeaderEnd, a: Abs { st: State::BlockStart(0x3B), started: true, ..a }, h, bad: false } }
{
    reveal(step);
    let a1 = Abs { st: State::BlockStart(0x3B), ..a };
    if a.st is BlockEnd { lemma_one(cfg, a, t, h, 0, Ev::Nothing, a1); assert(t.skip(0) =~= t); }
    if a.started { lemma_one(cfg, a1, t, h, 1, Ev::BlockStart(crate::common::Block::Trailer), Abs { st: State::Trailer, ..a1 }); }
    else { lemma_one(cfg, a1, t, h, 0, Ev::HeaderEnd, Abs { started: true, ..a1 }); }
}
/// the header ends in front of the first frame
pub proof fn lemma_first(cfg: Cfg, a: Abs, t: Seq<u8>, h: Head)
    requires a.st is BlockEnd, t.len() > 1, t[0] == 0x2C, !a.started,
    ensures scan(cfg, a, t, h) == (Scan { at: 1, ev: Ev::HeaderEnd, a: Abs { st: State::BlockStart(0x2C), started: true, ..a }, h, bad: false })
{
    one_blockend(cfg, a, t, h); let a1 = Abs { st: State::BlockStart(0x2C), ..a };
    reveal(step); lemma_one(cfg, a1, t.skip(1), h, 0, Ev::HeaderEnd, Abs { started: true, ..a1 });
}
/// what the descriptor of `f` makes of what the control extension before it said
pub open spec fn described(p: Pic, f: Frame<'_>) -> Pic { Pic { left: f.left, top: f.top, width: f.width, height: f.height, inter: f.interlaced, pal: match f.palette { Some(q) => Some(table_bytes(q@)), None => None }, ..p } }
pub open spec fn behind_desc(cfg: Cfg, a: Abs, f: Frame<'_>, m: u8, b: u8) -> Abs { Abs { st: if cfg.skip { State::CopySubBlock(b as usize) } else { State::DecodeSubBlock(b as usize) }, cur: Some(described(a.pic(), f)), min: if cfg.skip { a.min } else { m }, ..a } }
pub open spec fn desc_flags(f: Frame<'_>) -> u8 { ((if f.interlaced { 0x40int } else { 0 }) + match f.palette { Some(p) => 0x80 + table_flag(colors(p@)), None => 0 }) as u8 }
proof fn lemma_desc_flags(f: Frame<'_>)
    ensures (desc_flags(f) / 64) % 2 == 1 <==> f.interlaced, desc_flags(f) >= 128 <==> f.palette is Some, f.palette matches Some(p) ==> pal_size(desc_flags(f)) == 3 * table_entries(table_flag(colors(p@))), f.palette is None ==> pal_size(desc_flags(f)) == 0
{
    let t = match f.palette { Some(p) => table_flag(colors(p@)), None => 0 }; let i = if f.interlaced { 1int } else { 0 }; let l = if f.palette is Some { 1int } else { 0 };
    let x = desc_flags(f) as int; assert(x == 64 * i + 128 * l + t);
    assert(x / 64 == i + 2 * l && x % 8 == t) by (nonlinear_arith) requires x == 64 * i + 128 * l + t, 0 <= t <= 7, 0 <= i <= 1, 0 <= l <= 1;
}
proof fn one_image(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head)
    requires a.st == State::BlockStart(0x2C), a.started, s.len() >= 9, a.has.len() == 0, cfg.frames ==> in_screen(image_pic(a.pic(), s.take(9)), a),
    ensures scan(cfg, a, s, h) == later(9, scan(cfg, Abs { st: State::LocalPalette(pal_size(s[8])), has: Seq::empty(), cur: Some(image_pic(a.pic(), s.take(9))), ..a }, s.skip(9), h))
{
    reveal(step);
    let a1 = Abs { st: State::ImageBlockStart, cur: Some(a.pic()), ..a };
    lemma_one(cfg, a, s, h, 0, Ev::BlockStart(crate::common::Block::Image), a1); assert(s.skip(0) =~= s);
    assert(got(a1, s, 9) =~= s.take(9));
    lemma_one(cfg, a1, s, h, 9, Ev::Nothing, Abs { st: State::LocalPalette(pal_size(s[8])), has: Seq::empty(), cur: Some(image_pic(a.pic(), s.take(9))), ..a1 });
}
proof fn one_lpal(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head, n: usize)
    requires a.st == State::LocalPalette(n), 0 < n <= s.len(), a.cur is Some, a.cur->0.pal == Some(Seq::<u8>::empty()),
    ensures scan(cfg, a, s, h) == later(n as int, scan(cfg, Abs { st: State::LocalPalette(0), cur: Some(Pic { pal: Some(s.take(n as int)), ..a.cur->0 }), ..a }, s.skip(n as int), h))
{ reveal(step); assert(Seq::<u8>::empty() + s.take(n as int) =~= s.take(n as int)); lemma_one(cfg, a, s, h, n as int, Ev::Nothing, Abs { st: State::LocalPalette(0), cur: Some(Pic { pal: Some(s.take(n as int)), ..a.cur->0 }), ..a }); }
proof fn one_lzwinit(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head)
    requires a.st == State::LocalPalette(0), s.len() >= 2, 1 <= s[0] <= 11,
    ensures scan(cfg, a, s, h) == (Scan { at: if s[1] == 0 { 1 } else { 2 }, ev: Ev::Meta(if cfg.skip { Some(s[0]) } else { None }), h, bad: false,
        a: Abs { st: if cfg.skip { State::CopySubBlock(s[1] as usize) } else { State::DecodeSubBlock(s[1] as usize) }, min: if cfg.skip { a.min } else { s[0] }, ..a } })
{
    reveal(step);
    let a1 = Abs { st: State::LzwInit(s[0]), ..a };
    lemma_one(cfg, a, s, h, 1, Ev::Nothing, a1);
    let u = s.skip(1); let a2 = Abs { st: if cfg.skip { State::CopySubBlock(s[1] as usize) } else { State::DecodeSubBlock(s[1] as usize) }, min: if cfg.skip { a.min } else { s[0] }, ..a1 };
    let e = Ev::Meta(if cfg.skip { Some(s[0]) } else { None }); let c = if s[1] == 0 { 0int } else { 1 };
    assert(step(cfg, a1, u) == Res::Step(c, e, a2));
    assert(scan(cfg, a1, u, h) == Scan { at: c, ev: e, a: a2, h: hear(h, e), bad: false });
}
#[verifier::spinoff_prover]
pub proof fn lemma_desc(cfg: Cfg, a: Abs, f: Frame<'_>, m: u8, b: u8, t: Seq<u8>, h: Head)
    requires a.st == State::BlockStart(0x2C), a.started, a.has.len() == 0, a.pic().pal is None, 1 <= m <= 11, cfg.frames ==> f.left + f.width <= a.w && f.top + f.height <= a.h,
        f.palette matches Some(p) ==> colors(p@) <= 256,
    ensures scan(cfg, a, crate::encoder::frame_desc(f).skip(1) + seq![m, b] + t, h) == (Scan { at: crate::encoder::frame_desc(f).len() + if b == 0 { 0int } else { 1 }, ev: Ev::Meta(if cfg.skip { Some(m) } else { None }), a: behind_desc(cfg, a, f, m, b), h, bad: false }),
        crate::encoder::frame_desc(f)[0] == 0x2C,
{
    hide(scan);
    let s = crate::encoder::frame_desc(f).skip(1) + seq![m, b] + t; let g = s.take(9); let n = pal_size(s[8]);
    lemma_desc_flags(f);
    assert(s[8] == desc_flags(f));
    assert(g[0] == (f.left % 256) as u8 && g[1] == (f.left / 256) as u8 && g[2] == (f.top % 256) as u8 && g[3] == (f.top / 256) as u8 && g[4] == (f.width % 256) as u8 && g[5] == (f.width / 256) as u8 && g[6] == (f.height % 256) as u8 && g[7] == (f.height / 256) as u8);
    let p0 = image_pic(a.pic(), g); let p1 = described(a.pic(), f);
    assert(p0 == Pic { pal: if f.palette is Some { Some(Seq::<u8>::empty()) } else { None }, ..p1 });
    one_image(cfg, a, s, h);
    let a1 = Abs { st: State::LocalPalette(n), has: Seq::empty(), cur: Some(p0), ..a };
    let a2 = Abs { st: State::LocalPalette(0), cur: Some(p1), ..a1 };
    assert(a.has =~= Seq::<u8>::empty());
    let r = s.skip(9); let u = s.skip(9 + n); 
    if f.palette is Some {
        let q = f.palette->0@; assert(table_bytes(q).len() == n); assert(r.take(n as int) =~= table_bytes(q)); assert(r.skip(n as int) =~= u);
        one_lpal(cfg, a1, r, h, n);
    } else { assert(u =~= r); }
    assert(u =~= seq![m, b] + t);
    one_lzwinit(cfg, a2, u, h);
}
/// bytes of the sub-blocks of `d` behind the first size byte, or all of them if there is no data
pub open spec fn rest_blocks(d: Seq<u8>) -> Seq<u8> { if d.len() == 0 { seq![0u8] } else { sub_blocks(d).skip(1) } }
#[verifier::spinoff_prover]
pub proof fn lemma_blocks(out: Seq<u8>, d: Seq<u8>)
    ensures brun(Blk { left: 0, out, end: false }, sub_blocks(d)) == (Blk { left: 0, out: out + d, end: true }), sub_blocks(d).len() > 0, d.len() > 0 ==> sub_blocks(d)[0] > 0, sub_blocks(d)[0] <= 255
    decreases d.len()
{
    let b0 = Blk { left: 0nat, out, end: false };
    if d.len() == 0 { assert(sub_blocks(d).drop_last() =~= Seq::<u8>::empty()); assert(out + d =~= out); lemma_brun_one(b0, 0); }
    else {
        let n = if d.len() < 255 { d.len() as int } else { 255 }; let x = d.take(n);
        let z = if d.len() < 255 { seq![0u8] } else { sub_blocks(d.skip(255)) };
        assert(sub_blocks(d) =~= seq![n as u8] + x + z);
        lemma_brun_add(b0, seq![n as u8], x + z); lemma_brun_one(b0, n as u8); assert(seq![n as u8] + (x + z) =~= sub_blocks(d));
        let b1 = Blk { left: n as nat, out, end: false };
        lemma_brun_add(b1, x, z); lemma_brun_data(b1, x);
        let b2 = Blk { left: 0nat, out: out + x, end: false };
        if d.len() < 255 { lemma_brun_one(b2, 0); assert(out + x =~= out + d); } else { lemma_blocks(out + x, d.skip(255)); assert(out + x + d.skip(255) =~= out + d); }
    }
}
pub proof fn lemma_rest_blocks(d: Seq<u8>)
    ensures brun(Blk { left: if d.len() == 0 { 0 } else { sub_blocks(d)[0] as nat }, out: Seq::empty(), end: false }, rest_blocks(d)) == (Blk { left: 0, out: d, end: true })
{
    lemma_blocks(Seq::empty(), d); assert(Seq::<u8>::empty() + d =~= d);
    let b0 = Blk { left: 0nat, out: Seq::<u8>::empty(), end: false }; let s = sub_blocks(d);
    if d.len() > 0 { lemma_brun_add(b0, s.take(1), s.skip(1)); assert(s.take(1) + s.skip(1) =~= s); assert(s.take(1) =~= seq![s[0]]); lemma_brun_one(b0, s[0]); } else { assert(s =~= seq![0u8]); }
}
// ---------------------------------------------------------------- repetition counts
/// what `set_repeat` writes for each of `rs`
pub open spec fn reps_bytes(rs: Seq<Repeat>) -> Seq<u8>
    decreases rs.len()
{ if rs.len() == 0 { Seq::empty() } else { crate::encoder::ext_bytes(crate::encoder::ExtensionData::Repetitions(rs[0])) + reps_bytes(rs.skip(1)) } }
/// the count in force after `rs`, none of which takes back an earlier one
pub open spec fn reps_last(r: Repeat, rs: Seq<Repeat>) -> Repeat
    decreases rs.len()
{ if rs.len() == 0 { r } else { reps_last(if rs[0] == Repeat::Finite(0) { r } else { rs[0] }, rs.skip(1)) } }
pub open spec fn reps_abs(a: Abs, rs: Seq<Repeat>) -> Abs
    decreases rs.len()
{ if rs.len() == 0 { a } else { reps_abs(match rs[0] { Repeat::Infinite => behind_repeat(a, repeat_fields(0)), Repeat::Finite(n) => if n == 0 { a } else { behind_repeat(a, repeat_fields(n)) } }, rs.skip(1)) } }
pub proof fn lemma_reps(cfg: Cfg, a: Abs, rs: Seq<Repeat>, t: Seq<u8>, h: Head)
    requires a.st is BlockEnd, within(cfg.limit, 15),
    ensures scan(cfg, a, reps_bytes(rs) + t, h) == later(reps_bytes(rs).len() as int, scan(cfg, reps_abs(a, rs), t, Head { rep: reps_last(h.rep, rs), ..h })),
        ({ let b = reps_abs(a, rs); b == Abs { id: b.id, ext: b.ext, ext_end: b.ext_end, ..a } }),
    decreases rs.len()
{
    hide(scan);
    let u = reps_bytes(rs) + t;
    if rs.len() == 0 { assert(u =~= t); }
    else {
        let v = reps_bytes(rs.skip(1)) + t;
        if rs[0] == Repeat::Finite(0) { assert(u =~= v); lemma_reps(cfg, a, rs.skip(1), t, h); }
        else {
            let n = match rs[0] { Repeat::Finite(n) => n, Repeat::Infinite => 0 };
            assert(u =~= repeat_bytes(n) + v);
            lemma_repeat(cfg, a, n, v, h);
            assert(repeat_of(n) == rs[0]);
            lemma_reps(cfg, behind_repeat(a, repeat_fields(n)), rs.skip(1), t, hear(h, Ev::Repetitions(rs[0])));
        }
    }
}
// ---------------------------------------------------------------- a frame
/// the state in front of a frame or of the trailer
pub open spec fn idle(a: Abs) -> bool { a.st is BlockEnd && a.has.len() == 0 && a.pic().pal is None }
/// the decoder's options let the frame `f` pass
pub open spec fn frame_passes(cfg: Cfg, a: Abs, f: Frame<'_>) -> bool {
    within(cfg.limit, 15) && (cfg.frames ==> f.left + f.width <= a.w && f.top + f.height <= a.h) && (f.palette matches Some(p) ==> colors(p@) <= 256)
}
pub open spec fn control_of(f: Frame<'_>) -> Seq<u8> { control_fields(crate::encoder::control_flags(f.dispose, f.needs_user_input, f.transparent), f.delay, match f.transparent { Some(t) => t, None => 0 }) }
pub open spec fn first_size(d: Seq<u8>) -> u8 { sub_blocks(d)[0] }
/// the state behind the descriptor of `f`, the compressed form of whose pixels is `d`
pub open spec fn behind_frame(cfg: Cfg, a: Abs, rs: Seq<Repeat>, f: Frame<'_>, m: u8, d: Seq<u8>) -> Abs { behind_desc(cfg, behind_control(reps_abs(a, rs), control_of(f)), f, m, first_size(d)) }
pub open spec fn frame_start(rs: Seq<Repeat>, f: Frame<'_>, d: Seq<u8>) -> int { reps_bytes(rs).len() + 9 + crate::encoder::frame_desc(f).len() + if d.len() == 0 { 0int } else { 1 } }
pub open spec fn one_frame(rs: Seq<Repeat>, f: Frame<'_>, m: u8, d: Seq<u8>, y: Seq<u8>) -> Seq<u8> { reps_bytes(rs) + crate::encoder::frame_bytes(f, seq![m] + d) + y }
/// the pieces of a frame, put together in another way
#[verifier::spinoff_prover]
proof fn lemma_pieces(r: Seq<u8>, c: Seq<u8>, ds: Seq<u8>, m: u8, sb: Seq<u8>, y: Seq<u8>)
    requires sb.len() > 0,
    ensures r + (c + ds + (seq![m] + sb)) + y =~= r + (c + (ds + (seq![m, sb[0]] + (sb.skip(1) + y)))),
        (r + (c + ds + (seq![m] + sb)) + y).skip((r.len() + c.len() + 1 + ds.len()) as int) =~= sb + y,
        (r + (c + ds + (seq![m] + sb)) + y).skip((r.len() + c.len() + 1 + ds.len() + 1) as int) =~= sb.skip(1) + y,
{
    assert(seq![m] + sb =~= seq![m, sb[0]] + sb.skip(1));
}
#[verifier::spinoff_prover]
proof fn lemma_one_frame(rs: Seq<Repeat>, f: Frame<'_>, m: u8, d: Seq<u8>, y: Seq<u8>)
    ensures one_frame(rs, f, m, d, y) =~= reps_bytes(rs) + (crate::encoder::frame_control(f) + (crate::encoder::frame_desc(f) + (seq![m, first_size(d)] + (sub_blocks(d).skip(1) + y)))),
        first_size(d) == 0 <==> d.len() == 0, sub_blocks(d).len() > 0,
        one_frame(rs, f, m, d, y).skip(frame_start(rs, f, d)) =~= rest_blocks(d) + y, 0 <= frame_start(rs, f, d) <= one_frame(rs, f, m, d, y).len(),
{
    hide(crate::encoder::frame_desc);
    lemma_blocks(Seq::empty(), d);
    assert((seq![m] + d).skip(1) =~= d);
    assert(image_block_bytes(seq![m] + d) =~= seq![m] + sub_blocks(d));
    assert(crate::encoder::frame_control(f).len() == 8);
    if d.len() == 0 { assert(sub_blocks(d) =~= seq![0u8]); }
    lemma_pieces(reps_bytes(rs), crate::encoder::frame_control(f), crate::encoder::frame_desc(f), m, sub_blocks(d), y);
}
#[verifier::spinoff_prover]
pub proof fn lemma_scan_frame(cfg: Cfg, a: Abs, rs: Seq<Repeat>, f: Frame<'_>, m: u8, d: Seq<u8>, y: Seq<u8>, h: Head)
    requires idle(a), a.started, frame_passes(cfg, a, f), 1 <= m <= 11,
    ensures scan(cfg, a, one_frame(rs, f, m, d, y), h) == (Scan { at: frame_start(rs, f, d), ev: Ev::Meta(if cfg.skip { Some(m) } else { None }), a: behind_frame(cfg, a, rs, f, m, d), h: Head { rep: reps_last(h.rep, rs), ..h }, bad: false })
{
    hide(scan); hide(control);
    let b = first_size(d); let t = sub_blocks(d).skip(1) + y; let ds = crate::encoder::frame_desc(f);
    let u2 = ds.skip(1) + seq![m, b] + t; let u1 = ds + (seq![m, b] + t);
    lemma_one_frame(rs, f, m, d, y);
    let a1 = reps_abs(a, rs); let h1 = Head { rep: reps_last(h.rep, rs), ..h }; let a2 = behind_control(a1, control_of(f)); let a3 = Abs { st: State::BlockStart(0x2C), ..a2 };
    lemma_reps(cfg, a, rs, crate::encoder::frame_control(f) + u1, h);
    lemma_control(cfg, a1, crate::encoder::control_flags(f.dispose, f.needs_user_input, f.transparent), f.delay, match f.transparent { Some(t) => t, None => 0 }, u1, h1);
    assert(ds[0] == 0x2C); assert(u1.skip(1) =~= u2);
    one_blockend(cfg, a2, u1, h1);
    assert(a3.pic().pal is None) by { reveal(control); }
    lemma_desc(cfg, a3, f, m, b, t, h1);
    assert(behind_desc(cfg, a3, f, m, b) == behind_frame(cfg, a, rs, f, m, d));
}
// ---------------------------------------------------------------- reading what was written
/// what `rs` and the trailer are written as
pub open spec fn the_end(rs: Seq<Repeat>, y: Seq<u8>) -> Seq<u8> { reps_bytes(rs) + (seq![0x3Bu8] + y) }
pub open spec fn alike(s: Scan, t: Scan) -> bool { s.bad == t.bad && (!s.bad ==> s.at == t.at && s.ev == t.ev && s.a == t.a) }
/// the reader delivers the bytes `all`, or what of them there is so far
pub open spec fn plays<R: Read>(o: ReadDecoder<R>, all: Seq<u8>) -> bool { (o.reader.seen() + o.reader.ahead()).is_prefix_of(all) }
/// within `all`, reading on from `o` is like reading `x`, the end of it, in state `a`
pub open spec fn due<R: Read>(o: ReadDecoder<R>, all: Seq<u8>, x: Seq<u8>, a: Abs) -> bool {
    let c = o.reader.seen().len() as int;
    plays(o, all) && x.len() <= all.len() && all.skip(all.len() - x.len()) == x && !o.at_eof && alike(later(c, scan(o.decoder.cfg(), o.decoder.abs(), all.skip(c), head0())), later(all.len() - x.len(), scan(o.decoder.cfg(), a, x, head0()))) && calm(o, all)
}
/// image data of an earlier frame that was not read to its end is in order
pub open spec fn calm<R: Read>(o: ReadDecoder<R>, all: Seq<u8>) -> bool {
    o.decoder.state is DecodeSubBlock ==> forall|x: Seq<u8>| #[trigger] x.is_prefix_of(all.skip(o.reader.seen().len() as int)) ==> !lzw_spoilt(o.decoder.lzw_reader, brun(blk_of(o.decoder.state), x), true)
}
/// the state in which the frames of an animation are read
pub open spec fn ready_for_frames(a: Abs, w: u16, h: u16) -> bool { idle(a) && a.started && a.w == w && a.h == h }
/// what the header of an animation of this size, with this palette and these repetition counts is reported as
pub open spec fn header_told<R: Read>(d: Decoder<R>, w: u16, h: u16, p: Seq<u8>, rs: Seq<Repeat>) -> bool {
    &&& d.decoder.decoder.width == w && d.decoder.decoder.height == h && d.repeat == reps_last(Repeat::Finite(0), rs)
    &&& d.pixel_converter.global_palette is Some && d.pixel_converter.global_palette->0@ == table_bytes(p) && d.bg_color == Some(0u8)
}
pub open spec fn started_at(w: u16, h: u16) -> Abs { Abs { started: true, ..behind_header(w, h) } }
proof fn lemma_prefix(a: Seq<u8>, b: Seq<u8>, all: Seq<u8>)
    requires (a + b).is_prefix_of(all),
    ensures a.is_prefix_of(all), b.is_prefix_of(all.skip(a.len() as int)), a + all.skip(a.len() as int) =~= all, a.len() + b.len() <= all.len(),
{
    assert forall|i: int| 0 <= i < b.len() implies b[i] == all.skip(a.len() as int)[i] by { assert((a + b)[a.len() + i] == all[a.len() + i]); }
    assert forall|i: int| 0 <= i < a.len() implies a[i] == all[i] by { assert((a + b)[i] == all[i]); }
    assert(b =~= all.skip(a.len() as int).subrange(0, b.len() as int));
}
proof fn lemma_played<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, all: Seq<u8>)
    requires plays(m, all), m.moved(o),
    ensures plays(o, all), m.since(o) + all.skip(m.reader.seen().len() as int) =~= all.skip(o.reader.seen().len() as int), m.reader.ahead().is_prefix_of(all.skip(m.reader.seen().len() as int)),
        m.reader.seen().len() == o.reader.seen().len() + m.since(o).len(), m.since(o).is_prefix_of(all.skip(o.reader.seen().len() as int)), m.reader.seen().len() <= all.len(),
        (m.since(o) + m.reader.ahead()).is_prefix_of(all.skip(o.reader.seen().len() as int)),
{
    let (so, sm) = (o.reader.seen(), m.reader.seen()); let x = m.since(o); let (ao, am) = (o.reader.ahead(), m.reader.ahead());
    assert(sm =~= so + x);
    lemma_prefix(sm, am, all); lemma_prefix(so, x, all);
    assert(sm + am =~= so + (x + am)); lemma_prefix(so, x + am, all);
    assert((so + ao).is_prefix_of(sm + am));
    assert((so + ao) =~= all.subrange(0, (so + ao).len() as int));
}
/// the header of an animation goes up to its first frame
#[verifier::spinoff_prover]
proof fn lemma_opening_frame(cfg: Cfg, w: u16, h: u16, p: Seq<u8>, rs: Seq<Repeat>, g: Frame<'_>, m: u8, dd: Seq<u8>, y: Seq<u8>, c: int, a3: Abs)
    requires colors(p) <= 256, 1 <= m <= 11, frame_passes(cfg, started_at(w, h), g), c == header_len(p) + reps_bytes(rs).len() + 9,
        a3 == (Abs { st: State::BlockStart(0x2C), started: true, ..behind_control(reps_abs(behind_header(w, h), rs), control_of(g)) }),
    ensures ({ let x = one_frame(rs, g, m, dd, y); let all = header_bytes(w, h, p) + x;
        c <= all.len() && header_bytes(w, h, p).len() == header_len(p) && scan(cfg, abs0(), all, head0()) == (Scan { at: c, ev: Ev::HeaderEnd, a: a3, h: Head { rep: reps_last(Repeat::Finite(0), rs), ..head_of(p) }, bad: false })
        && alike(later(c, scan(cfg, a3, all.skip(c), head0())), later(header_len(p), scan(cfg, started_at(w, h), x, head0()))) }),
{
    hide(scan); hide(control);
    let x = one_frame(rs, g, m, dd, y); let all = header_bytes(w, h, p) + x;
    let b = behind_header(w, h); let s = started_at(w, h); let h0 = head_of(p); let h1 = Head { rep: reps_last(h0.rep, rs), ..h0 };
    lemma_one_frame(rs, g, m, dd, y); assert(x.len() > 0);
    lemma_header(cfg, w, h, p, x);
    let a1 = reps_abs(b, rs); let k = reps_bytes(rs).len() as int;
    let ds = crate::encoder::frame_desc(g); let u = seq![m, first_size(dd)] + (sub_blocks(dd).skip(1) + y);
    lemma_reps(cfg, b, rs, crate::encoder::frame_control(g) + (ds + u), h0);
    lemma_control(cfg, a1, crate::encoder::control_flags(g.dispose, g.needs_user_input, g.transparent), g.delay, match g.transparent { Some(t) => t, None => 0 }, ds + u, h1);
    let a2 = behind_control(a1, control_of(g));
    assert(ds[0] == 0x2C);
    lemma_first(cfg, a2, ds + u, h1);
    assert(all =~= header_bytes(w, h, p) + (reps_bytes(rs) + (crate::encoder::frame_control(g) + (ds + u))));
    assert(crate::encoder::frame_control(g).len() == 8);
    assert(all.skip(c) =~= ds.skip(1) + seq![m, first_size(dd)] + (sub_blocks(dd).skip(1) + y));
    assert(a3.pic().pal is None) by { reveal(control); }
    lemma_desc(cfg, a3, g, m, first_size(dd), sub_blocks(dd).skip(1) + y, head0());
    lemma_scan_frame(cfg, s, rs, g, m, dd, y, head0());
    lemma_reps_started(b, rs);
    assert(behind_desc(cfg, a3, g, m, first_size(dd)) == behind_frame(cfg, s, rs, g, m, dd));
}
#[verifier::spinoff_prover]
proof fn lemma_opening_end(cfg: Cfg, w: u16, h: u16, p: Seq<u8>, rs: Seq<Repeat>, y: Seq<u8>, c: int, a3: Abs)
    requires colors(p) <= 256, within(cfg.limit, 15), c == header_len(p) + reps_bytes(rs).len(),
        a3 == (Abs { st: State::BlockStart(0x3B), started: true, ..reps_abs(behind_header(w, h), rs) }),
    ensures ({ let x = the_end(rs, y); let all = header_bytes(w, h, p) + x;
        c <= all.len() && header_bytes(w, h, p).len() == header_len(p) && scan(cfg, abs0(), all, head0()) == (Scan { at: c, ev: Ev::HeaderEnd, a: a3, h: Head { rep: reps_last(Repeat::Finite(0), rs), ..head_of(p) }, bad: false })
        && alike(later(c, scan(cfg, a3, all.skip(c), head0())), later(header_len(p), scan(cfg, started_at(w, h), x, head0()))) }),
{
    hide(scan);
    let x = the_end(rs, y); let all = header_bytes(w, h, p) + x; let t = seq![0x3Bu8] + y;
    let b = behind_header(w, h); let s = started_at(w, h); let h0 = head_of(p); let h1 = Head { rep: reps_last(h0.rep, rs), ..h0 };
    lemma_header(cfg, w, h, p, x);
    lemma_reps(cfg, b, rs, t, h0); lemma_reps(cfg, s, rs, t, head0()); lemma_reps_started(b, rs);
    lemma_trailer(cfg, reps_abs(b, rs), t, h1); lemma_trailer(cfg, reps_abs(s, rs), t, Head { rep: reps_last(head0().rep, rs), ..head0() });
    assert(all.skip(c) =~= t); lemma_trailer(cfg, a3, t, head0());
}
/// where reading the header of such an animation stops
#[verifier::spinoff_prover]
proof fn lemma_opened_as(cfg: Cfg, all: Seq<u8>, w: u16, h: u16, p: Seq<u8>, rs: Seq<Repeat>, f: Option<(Frame<'_>, u8, Seq<u8>)>, y: Seq<u8>)
    requires colors(p) <= 256, within(cfg.limit, 15),
        all == header_bytes(w, h, p) + match f { Some(f) => one_frame(rs, f.0, f.1, f.2, y), None => the_end(rs, y) },
        f matches Some(f) ==> 1 <= f.1 <= 11 && frame_passes(cfg, started_at(w, h), f.0),
    ensures ({ let z = scan(cfg, abs0(), all, head0()); let x = match f { Some(f) => one_frame(rs, f.0, f.1, f.2, y), None => the_end(rs, y) };
        z.ev is HeaderEnd && !z.bad && z.h.rep == reps_last(Repeat::Finite(0), rs) && z.h.bg == Some(0u8) && z.h.pal == Some(table_bytes(p)) && z.a.w == w && z.a.h == h && !(z.a.st is DecodeSubBlock)
        && alike(later(z.at, scan(cfg, z.a, all.skip(z.at), head0())), later(all.len() - x.len(), scan(cfg, started_at(w, h), x, head0()))) && x.len() <= all.len() && all.skip(all.len() - x.len()) == x }),
        table_bytes(p).len() / 3 > 0, ready_for_frames(started_at(w, h), w, h),
{
    hide(scan); hide(control); hide(one_frame); hide(the_end); hide(header_bytes);
    assert(table_bytes(p).len() / 3 > 0) by { assert(table_entries(table_flag(colors(p))) >= 2); }
    lemma_reps_started(behind_header(w, h), rs); lemma_reps(cfg, behind_header(w, h), rs, Seq::empty(), head0());
    if let Some(q) = f {
        let a3 = Abs { st: State::BlockStart(0x2C), started: true, ..behind_control(reps_abs(behind_header(w, h), rs), control_of(q.0)) };
        lemma_opening_frame(cfg, w, h, p, rs, q.0, q.1, q.2, y, header_len(p) + reps_bytes(rs).len() + 9, a3);
        let x = one_frame(rs, q.0, q.1, q.2, y); lemma_tail(header_bytes(w, h, p), x, all);
    } else {
        let a3 = Abs { st: State::BlockStart(0x3B), started: true, ..reps_abs(behind_header(w, h), rs) };
        lemma_opening_end(cfg, w, h, p, rs, y, header_len(p) + reps_bytes(rs).len(), a3);
        let x = the_end(rs, y); lemma_tail(header_bytes(w, h, p), x, all);
    }
}
proof fn lemma_tail(a: Seq<u8>, x: Seq<u8>, all: Seq<u8>)
    requires all == a + x,
    ensures all.skip(all.len() - x.len()) == x, all.len() == a.len() + x.len(),
{ assert(all.skip(all.len() - x.len()) =~= x); }
/// the header of an animation that goes on with a frame, or with the trailer
#[verifier::spinoff_prover]
pub proof fn lemma_told_header<R: Read>(o: DecodeOptions, d: Decoder<R>, all: Seq<u8>, w: u16, h: u16, p: Seq<u8>, rs: Seq<Repeat>, f: Option<(Frame<'_>, u8, Seq<u8>)>, y: Seq<u8>)
    requires d.wf(), !d.decoder.at_eof, opened(o, d), plays(d.decoder, all), colors(p) <= 256, within(o.memory_limit, 15),
        all == header_bytes(w, h, p) + match f { Some(f) => one_frame(rs, f.0, f.1, f.2, y), None => the_end(rs, y) },
        f matches Some(f) ==> 1 <= f.1 <= 11 && frame_passes(d.decoder.decoder.cfg(), started_at(w, h), f.0),
    ensures header_told(d, w, h, p, rs), due(d.decoder, all, match f { Some(f) => one_frame(rs, f.0, f.1, f.2, y), None => the_end(rs, y) }, started_at(w, h)), ready_for_frames(started_at(w, h), w, h),
{
    hide(scan); hide(one_frame); hide(the_end); hide(header_bytes);
    let cfg = d.decoder.decoder.cfg(); let seen = d.decoder.reader.seen(); let a0 = d.decoder.decoder.abs();
    let hh = choose|hh: Head| {
        &&& #[trigger] header_is(cfg, seen, d.decoder.reader.ahead(), a0, hh)
        &&& d.repeat == hh.rep && (d.pixel_converter.global_palette is Some) == (hh.pal is Some) && (d.pixel_converter.global_palette matches Some(p) ==> p@ == hh.pal->0)
        &&& d.bg_color == match hh.bg { Some(c) => if hh.pal is Some && c as int >= hh.pal->0.len() / 3 { None } else { Some(c) }, None => None }
    };
    lemma_prefix(seen, d.decoder.reader.ahead(), all);
    lemma_opened_as(cfg, all, w, h, p, rs, f, y);
    let z = scan(cfg, abs0(), all, head0());
    assert(z == Scan { at: seen.len() as int, ev: Ev::HeaderEnd, a: a0, h: hh, bad: false });
}
proof fn lemma_reps_started(a: Abs, rs: Seq<Repeat>)
    ensures reps_abs(Abs { started: true, ..a }, rs) == (Abs { started: true, ..reps_abs(a, rs) })
    decreases rs.len()
{
    if rs.len() > 0 {
        let b = match rs[0] { Repeat::Infinite => behind_repeat(a, repeat_fields(0)), Repeat::Finite(n) => if n == 0 { a } else { behind_repeat(a, repeat_fields(n)) } };
        lemma_reps_started(b, rs.skip(1));
    }
}
// ---------------------------------------------------------------- reading one frame
/// `d` is LZW data with minimum code size `m` for the pixels `px`
pub open spec fn codes_for(m: u8, d: Seq<u8>, px: Seq<u8>) -> bool { lzw_out(m, d) == px && lzw_done(m, d) && !lzw_bad(m, d) }
/// what reading the sub-blocks `rest` of `d` and perhaps more gives
proof fn lemma_within(b0: Blk, rest: Seq<u8>, d: Seq<u8>, y: Seq<u8>, u: Seq<u8>)
    requires !b0.end, b0.out.len() == 0, brun(b0, rest) == (Blk { left: 0, out: d, end: true }), u.is_prefix_of(rest + y),
    ensures ({ let b = brun(b0, u);
        b.out.is_prefix_of(d) && (b.end <==> u.len() >= rest.len()) && (b.end ==> b.out == d && (b.left == 0 <==> u.len() == rest.len()))
        && (u.len() <= rest.len() ==> u + rest.skip(u.len() as int) =~= rest) })
{
    if u.len() <= rest.len() {
        let v = rest.skip(u.len() as int); assert(u + v =~= rest);
        let b = brun(b0, u); lemma_brun_add(b0, u, v); lemma_brun_out(b, v); lemma_brun_stop(b, v);
        let q = brun(Blk { out: Seq::empty(), ..b }, v);
        assert(b.out + q.out == d);
        if v.len() == 0 { assert(u =~= rest); }
    } else {
        let v = u.skip(rest.len() as int); assert(u =~= rest + v) by { assert(u =~= (rest + y).subrange(0, u.len() as int)); }
        lemma_brun_add(b0, rest, v); lemma_brun_stop(brun(b0, rest), v);
    }
}
/// what image data not yet read leads to is no surprise
proof fn lemma_calm<R: Read>(m: ReadDecoder<R>, n: ReadDecoder<R>, all: Seq<u8>, rest: Seq<u8>, d: Seq<u8>, y: Seq<u8>)
    requires at_data(m), took(m, n), n.moved(m), plays(n, all), all.skip(m.reader.seen().len() as int) =~= rest + y, brun(blk_of(m.decoder.state), rest) == (Blk { left: 0, out: d, end: true }),
        !lzw_bad(m.decoder.lzw_reader.min_code_size, d), lzw_done(m.decoder.lzw_reader.min_code_size, d),
    ensures calm(n, all)
{
    if n.decoder.state is DecodeSubBlock {
        let b0 = blk_of(m.decoder.state); let x0 = n.since(m); let (l0, l) = (m.decoder.lzw_reader.lz(), n.decoder.lzw_reader.lz()); let b1 = brun(b0, x0);
        lemma_played(m, n, all);
        assert forall|x: Seq<u8>| #[trigger] x.is_prefix_of(all.skip(n.reader.seen().len() as int)) implies !lzw_spoilt(n.decoder.lzw_reader, brun(blk_of(n.decoder.state), x), true) by {
            let u = x0 + x; let q = brun(blk_of(n.decoder.state), x); let r = rest + y;
            assert(u.is_prefix_of(r)) by { lemma_prefix_add(x0, x, all.skip(m.reader.seen().len() as int)); assert(r =~= all.skip(m.reader.seen().len() as int)); }
            lemma_within(b0, rest, d, y, u); lemma_brun_add(b0, x0, x);
            assert(!b1.end); assert(blk_of(n.decoder.state) == Blk { out: Seq::empty(), ..b1 }); lemma_brun_out(b1, x);
            let o = b1.out + q.out; assert(brun(b0, u).out == o && brun(b0, u).end == q.end);
            if !l.ended {
                assert(l.fed =~= b1.out);
                axiom_lzw_bad(l.size, o, d.skip(o.len() as int)); assert(o + d.skip(o.len() as int) =~= d);
                assert(l.fed + q.out =~= o);
            }
        }
    }
}
proof fn lemma_prefix_add(a: Seq<u8>, x: Seq<u8>, all: Seq<u8>)
    requires a.is_prefix_of(all), x.is_prefix_of(all.skip(a.len() as int)),
    ensures (a + x).is_prefix_of(all)
{
    assert(a =~= all.subrange(0, a.len() as int)); assert(x =~= all.skip(a.len() as int).subrange(0, x.len() as int));
    assert(a + x =~= all.subrange(0, (a + x).len() as int));
}
/// the state behind the image data of a frame
pub open spec fn behind_data(a: Abs) -> Abs { Abs { st: State::BlockEnd, cur: None, ..a } }
/// reading on from a frame whose image data was read as far as `n`
#[verifier::spinoff_prover]
proof fn lemma_due_again<R: Read>(m: ReadDecoder<R>, n: ReadDecoder<R>, all: Seq<u8>, rest: Seq<u8>, d: Seq<u8>, y: Seq<u8>)
    requires data_state(m.decoder.state), n.moved(m), plays(n, all), all.skip(m.reader.seen().len() as int) =~= rest + y, brun(blk_of(m.decoder.state), rest) == (Blk { left: 0, out: d, end: true }), m.decoder.abs().has.len() == 0,
        ({ let b = brun(blk_of(m.decoder.state), n.since(m)); b.left <= 255 && same(abs_of(m.decoder.abs(), b), n.decoder.abs()) && (b.end ==> b.left == 0) }),
    ensures ({ let c = n.reader.seen().len() as int; later(c, scan(n.decoder.cfg(), n.decoder.abs(), all.skip(c), head0())) == later(all.len() - y.len(), scan(n.decoder.cfg(), behind_data(m.decoder.abs()), y, head0())) }),
        n.since(m).len() <= rest.len(), n.decoder.state is BlockEnd <==> n.since(m).len() == rest.len(),
{
    hide(scan);
    let b0 = blk_of(m.decoder.state); let x = n.since(m); let b = brun(b0, x); let c = n.reader.seen().len() as int; let a = m.decoder.abs(); let cfg = n.decoder.cfg();
    lemma_played(m, n, all);
    lemma_within(b0, rest, d, y, x);
    let z = rest.skip(x.len() as int);
    assert(x + z =~= rest); assert(all.skip(c) =~= z + y) by { assert(all.skip(c) =~= (rest + y).skip(x.len() as int)); }
    assert(abs_of(a, b) == n.decoder.abs());
    assert(abs_of(a, brun(b0, rest)) == behind_data(a));
    if b.end { assert(all.skip(c) =~= y); }
    else {
        let b1 = blk_of(n.decoder.state); assert(b1 == Blk { out: Seq::empty(), ..b });
        lemma_brun_add(b0, x, z); lemma_brun_out(b, z);
        lemma_scan_data(cfg, n.decoder.abs(), z, y, head0());
        assert(abs_of(n.decoder.abs(), brun(b1, z)) == behind_data(a));
    }
}
/// the metadata of a frame came through; colours were added to its palette up to a power of two
pub open spec fn frame_told(f: Frame<'_>, f0: Frame<'_>) -> bool {
    &&& f0.left == f.left && f0.top == f.top && f0.width == f.width && f0.height == f.height && f0.interlaced == f.interlaced
    &&& f0.delay == f.delay && f0.dispose == f.dispose && f0.needs_user_input == f.needs_user_input && f0.transparent == f.transparent
    &&& (f0.palette is Some <==> f.palette is Some) && (f0.palette matches Some(q) ==> q@ == table_bytes(f.palette->0@))
}
proof fn lemma_control_told(p: Option<Pic>, f: Frame<'_>)
    ensures ({ let c = control(p, control_of(f)); c.delay == f.delay && c.dispose == f.dispose && c.user == f.needs_user_input && c.trns == f.transparent })
{
    let e = control_of(f); let k = crate::common::dispose_code(f.dispose) as int; let u = if f.needs_user_input { 1int } else { 0 }; let t = if f.transparent is Some { 1int } else { 0 };
    let x = e[1] as int; assert(0 <= k <= 3); assert(x == 4 * k + 2 * u + t);
    assert(x / 4 == k && x / 2 == 2 * k + u && x % 2 == t && (2 * k + u) % 2 == u && k % 8 == k) by (nonlinear_arith) requires x == 4 * k + 2 * u + t, 0 <= t <= 1, 0 <= u <= 1, 0 <= k <= 3;
    assert(le16_at(e, 2) == f.delay);
    assert(crate::common::dispose_of(crate::common::dispose_code(f.dispose)) == Some(f.dispose));
}
/// what `o`, in front of the frame `f`, comes to
pub open spec fn in_front<R: Read>(o: ReadDecoder<R>, all: Seq<u8>, a: Abs, rs: Seq<Repeat>, f: Frame<'_>, mc: u8, d: Seq<u8>, y: Seq<u8>) -> bool {
    due(o, all, one_frame(rs, f, mc, d, y), a) && idle(a) && a.started && frame_passes(o.decoder.cfg(), a, f) && 1 <= mc <= 11
}
pub open spec fn kind_of(cfg: Cfg, mc: u8) -> FrameDataType { if cfg.skip { FrameDataType::Lzw { min_code_size: mc } } else { FrameDataType::Pixels } }
#[verifier::spinoff_prover]
pub proof fn lemma_at_frame<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, f0: Frame<'_>, dt: FrameDataType, all: Seq<u8>, a: Abs, rs: Seq<Repeat>, f: Frame<'_>, mc: u8, d: Seq<u8>, y: Seq<u8>)
    requires framed(o, m, f0, dt), m.moved(o), plays(m, all), in_front(o, all, a, rs, f, mc, d, y),
    ensures frame_told(f, f0), dt == kind_of(o.decoder.cfg(), mc), all.skip(m.reader.seen().len() as int) =~= rest_blocks(d) + y, brun(blk_of(m.decoder.state), rest_blocks(d)) == (Blk { left: 0, out: d, end: true }), m.decoder.abs().has.len() == 0,
        data_state(m.decoder.state), behind_data(m.decoder.abs()) == behind_data(behind_frame(o.decoder.cfg(), a, rs, f, mc, d)), !o.decoder.skip_frame_decoding ==> at_data(m) && m.decoder.lzw_reader.min_code_size == mc,
{
    hide(scan); hide(control);
    let cfg = o.decoder.cfg(); let x = one_frame(rs, f, mc, d, y); let c = o.reader.seen().len() as int; let t = all.skip(m.reader.seen().len() as int);
    lemma_played(o, m, all); lemma_one_frame(rs, f, mc, d, y);
    lemma_scan_frame(cfg, a, rs, f, mc, d, y, head0());
    let w = behind_frame(cfg, a, rs, f, mc, d);
    let (b, h) = choose|b: Abs, h: Head| {
        &&& #[trigger] found(o, m, head0(), meta_of(dt), b, h)
        &&& b.cur == Some(pic_of(f0)) && f0.buffer is Borrowed && same(m.decoder.abs(), Abs { cur: Some(Pic { pal: None, ..pic_of(f0) }), ..b })
        &&& if dt is Pixels { !m.decoder.skip_frame_decoding && b.st is DecodeSubBlock && m.decoder.lzw_reader.decoder is Some && lz_fresh(m.decoder.lzw_reader.lz(), b.min) && lz_ok(m.decoder.lzw_reader.lz()) } else { b.st is CopySubBlock }
    };
    assert(scan(cfg, o.decoder.abs(), m.since(o) + t, head0()) == (Scan { at: m.since(o).len() as int, ev: meta_of(dt), a: b, h, bad: false }));
    assert(m.since(o) + t == all.skip(c));
    assert(b == w && m.reader.seen().len() == all.len() - x.len() + frame_start(rs, f, d));
    lemma_reps(cfg, a, rs, Seq::empty(), head0());
    let pc = control(reps_abs(a, rs).cur, control_of(f));
    assert(w.pic() == described(pc, f));
    lemma_control_told(reps_abs(a, rs).cur, f);
    assert(pic_of(f0) == described(pc, f));
    assert(plays(o, all)); 
    assert(t =~= rest_blocks(d) + y) by { lemma_ends(all, x, m.reader.seen().len() as int, frame_start(rs, f, d)); }
    lemma_rest_blocks(d); lemma_blocks(Seq::empty(), d);
}
/// `x` is how `all` ends
proof fn lemma_ends(all: Seq<u8>, x: Seq<u8>, k: int, i: int)
    requires 0 <= i <= x.len() <= all.len(), k == all.len() - x.len() + i, all.skip(all.len() - x.len()) == x,
    ensures all.skip(k) =~= x.skip(i)
{ assert(all.skip(all.len() - x.len()).skip(i) =~= all.skip(k)); }
/// the frame `g` that was read when `f`, compressed to `d`, stood next, and where reading went on
pub open spec fn frame_came<R: Read>(n: ReadDecoder<R>, p: PixelConverter, dt: FrameDataType, g: Frame<'static>, all: Seq<u8>, a2: Abs, f: Frame<'_>, mc: u8, d: Seq<u8>, px: Seq<u8>, y: Seq<u8>) -> bool {
    due(n, all, y, a2) && came_back(n.decoder.cfg(), p, dt, g, f, mc, d, px)
}
/// `g` is what `f` is reported as
pub open spec fn came_back(cfg: Cfg, p: PixelConverter, dt: FrameDataType, g: Frame<'static>, f: Frame<'_>, mc: u8, d: Seq<u8>, px: Seq<u8>) -> bool {
    &&& dt == kind_of(cfg, mc) && frame_told(Frame { interlaced: g.interlaced, ..f }, g) && (cfg.skip ==> g.interlaced == f.interlaced && cow_bytes(g.buffer) == seq![mc] + d)
    &&& !cfg.skip ==> !g.interlaced && pixels_came(p, f, px, cow_bytes(g.buffer))
}
/// the pixels `px`, stored in the order `f` says, came out in the chosen form, by the palette of `f` or the global one
pub open spec fn pixels_came(p: PixelConverter, f: Frame<'_>, px: Seq<u8>, b: Seq<u8>) -> bool {
    exists|f0: Frame<'static>| #[trigger] frame_told(f, f0) && px.len() >= f.width as int * f.height as int && image_of(p, f0, px.take(f.width as int * f.height as int), zeros(pixel_bytes(p.color_output, f.width, f.height)), b)
}
#[verifier::spinoff_prover]
proof fn lemma_told_due<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, f0: Frame<'static>, n: ReadDecoder<R>, p: PixelConverter, dt: FrameDataType, g: Frame<'static>, all: Seq<u8>, a: Abs, rs: Seq<Repeat>, f: Frame<'_>, mc: u8, d: Seq<u8>, px: Seq<u8>, y: Seq<u8>)
    requires frame_got(o, m, f0, n, p, dt, g), plays(n, all), in_front(o, all, a, rs, f, mc, d, y), codes_for(mc, d, px),
    ensures due(n, all, y, behind_data(behind_frame(o.decoder.cfg(), a, rs, f, mc, d))),
{
    hide(scan); hide(control);
    let rest = rest_blocks(d); let cfg = o.decoder.cfg(); let x = one_frame(rs, f, mc, d, y);
    lemma_moved(o, m, n); lemma_played(m, n, all); lemma_played(o, n, all);
    lemma_at_frame(o, m, f0, dt, all, a, rs, f, mc, d, y);
    lemma_due_again(m, n, all, rest, d, y);
    lemma_one_frame(rs, f, mc, d, y);
    assert(x.skip(frame_start(rs, f, d) + rest.len()) =~= y) by { assert(x.skip(frame_start(rs, f, d)).skip(rest.len() as int) =~= y); }
    lemma_ends(all, x, all.len() - y.len(), frame_start(rs, f, d) + rest.len());
    if dt is Pixels { lemma_calm(m, n, all, rest, d, y); }
}
#[verifier::spinoff_prover]
proof fn lemma_told_back<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, f0: Frame<'static>, n: ReadDecoder<R>, p: PixelConverter, dt: FrameDataType, g: Frame<'static>, all: Seq<u8>, a: Abs, rs: Seq<Repeat>, f: Frame<'_>, mc: u8, d: Seq<u8>, px: Seq<u8>, y: Seq<u8>)
    requires frame_got(o, m, f0, n, p, dt, g), plays(n, all), in_front(o, all, a, rs, f, mc, d, y), codes_for(mc, d, px),
    ensures came_back(n.decoder.cfg(), p, dt, g, f, mc, d, px),
{
    hide(scan); hide(control);
    let rest = rest_blocks(d);
    lemma_moved(o, m, n); lemma_played(m, n, all);
    lemma_at_frame(o, m, f0, dt, all, a, rs, f, mc, d, y);
    assert(Frame { interlaced: g.interlaced, ..f }.palette == f.palette);
    if dt is Pixels {
        let q = payload(m, n); lemma_within(blk_of(m.decoder.state), rest, d, y, n.since(m));
        axiom_lzw_prefix(mc, q, d.skip(q.len() as int)); assert(q + d.skip(q.len() as int) =~= d);
        let k = f.width as int * f.height as int;
        assert(n.made().is_prefix_of(px)); assert(n.made().len() == k); assert(n.made() =~= px.take(k));
        assert(frame_told(f, f0));
        assert(pixels_came(p, f, px, cow_bytes(g.buffer)));
    } else {
        lemma_due_again(m, n, all, rest, d, y);
        assert(n.since(m) =~= rest) by { assert(n.since(m) =~= (rest + y).subrange(0, rest.len() as int)); }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_told_frame<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, p: PixelConverter, dt: FrameDataType, g: Frame<'static>, all: Seq<u8>, a: Abs, rs: Seq<Repeat>, f: Frame<'_>, mc: u8, d: Seq<u8>, px: Seq<u8>, y: Seq<u8>)
    requires frame_read(o, n, p, dt, g), plays(n, all), in_front(o, all, a, rs, f, mc, d, y), codes_for(mc, d, px),
    ensures frame_came(n, p, dt, g, all, behind_data(behind_frame(o.decoder.cfg(), a, rs, f, mc, d)), f, mc, d, px, y), ready_for_frames(behind_data(behind_frame(o.decoder.cfg(), a, rs, f, mc, d)), a.w, a.h),
{
    hide(scan); hide(control);
    let (m, f0) = choose|m: ReadDecoder<R>, f0: Frame<'static>| #[trigger] frame_got(o, m, f0, n, p, dt, g);
    lemma_scan_frame(o.decoder.cfg(), a, rs, f, mc, d, y, head0()); lemma_reps(o.decoder.cfg(), a, rs, Seq::empty(), head0());
    lemma_told_due(o, m, f0, n, p, dt, g, all, a, rs, f, mc, d, px, y);
    lemma_told_back(o, m, f0, n, p, dt, g, all, a, rs, f, mc, d, px, y);
}
/// what is wrong with a beginning of the input is wrong with the input
proof fn lemma_scan_bad(cfg: Cfg, a: Abs, x: Seq<u8>, t: Seq<u8>, h: Head)
    requires awf(a),
    ensures scan(cfg, a, x, h).bad ==> scan(cfg, a, x + t, h).bad
    decreases x.len(), rank2(a.st)
{
    let u = x + t;
    if x.len() > 0 {
        if data_state(a.st) {
            assert(u.skip(1) =~= x.skip(1) + t); let a1 = abs_of(a, bstep(blk_of(a.st), x[0])); lemma_scan_bad(cfg, a1, x.skip(1), t, h);
        } else {
            lemma_step_ext(cfg, a, x, t); lemma_step_rank(cfg, a, x); lemma_step_rank(cfg, a, u);
            match step(cfg, a, x) {
                Res::Step(c, e, a1) => if !stops(e) {
                    assert(u.skip(c) =~= x.skip(c) + t);
                    lemma_scan_bad(cfg, a1, x.skip(c), t, hear(h, e));
                    if step(cfg, a, u) != step(cfg, a, x) { assert(x.skip(c).len() == 0); }
                },
                _ => {}
            }
        }
    }
}
/// with a frame or the trailer next, nothing is wrong with the stream
#[verifier::spinoff_prover]
proof fn lemma_not_wrong<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, e: DecodingError, all: Seq<u8>, x: Seq<u8>, a: Abs)
    requires o.wf(), n.moved(o), plays(n, all), n.reader.faults() == o.reader.faults(), !oom(e), due(o, all, x, a), !scan(o.decoder.cfg(), a, x, head0()).bad,
    ensures !wrong(o, n, e)
{
    lemma_played(o, n, all);
    let z = n.since(o) + n.reader.ahead(); let t = all.skip(o.reader.seen().len() as int);
    assert(z + t.skip(z.len() as int) =~= t) by { assert(z =~= t.subrange(0, z.len() as int)); }
    lemma_scan_bad(o.decoder.cfg(), o.decoder.abs(), z, t.skip(z.len() as int), head0());
}
pub open spec fn has_room(lim: MemoryLimit, out: ColorOutput, cfg: Cfg, f: Frame<'_>, d: Seq<u8>, px: Seq<u8>) -> bool {
    f.width > 0 && f.height > 0 && px.len() >= f.width as int * f.height as int && within(lim, pixel_bytes(out, f.width, f.height)) && within(cfg.limit, 1 + d.len())
}
/// a frame that was written is not refused
#[verifier::spinoff_prover]
pub proof fn lemma_not_refused<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, p: PixelConverter, q: PixelConverter, g: Frame<'static>, dt: FrameDataType, e: DecodingError, all: Seq<u8>, a: Abs, rs: Seq<Repeat>, f: Frame<'_>, mc: u8, d: Seq<u8>, px: Seq<u8>, y: Seq<u8>)
    requires o.wf(), n.moved(o), plays(n, all), n.reader.faults() == o.reader.faults(), !oom(e), in_front(o, all, a, rs, f, mc, d, y), codes_for(mc, d, px), has_room(p.memory_limit, p.color_output, o.decoder.cfg(), f, d, px), p.global_palette is Some, q.global_palette is Some,
    ensures !wrong(o, n, e), !no_colours(o, n, q, g), !frame_refused(o, n, p, dt, e),
{
    hide(scan); hide(control);
    let cfg = o.decoder.cfg(); let x = one_frame(rs, f, mc, d, y);
    lemma_scan_frame(cfg, a, rs, f, mc, d, y, head0());
    lemma_not_wrong(o, n, e, all, x, a);
    if frame_refused(o, n, p, dt, e) {
        let (m, f0) = choose|m: ReadDecoder<R>, f0: Frame<'static>| #[trigger] frame_refused_at(o, m, f0, n, p, dt, e);
        lemma_played(m, n, all);
        lemma_at_frame(o, m, f0, dt, all, a, rs, f, mc, d, y);
        let z = n.since(m) + n.reader.ahead(); let b0 = blk_of(m.decoder.state); let k = brun(b0, z); let rest = rest_blocks(d);
        lemma_within(b0, rest, d, y, z); assert(n.reader.faults() == m.reader.faults()) by { lemma_moved(o, m, n); lemma_faults(o.reader.faults(), m.reader.faults(), n.reader.faults()); }
        if dt is Pixels {
            let l = m.decoder.lzw_reader;
            axiom_lzw_bad(mc, k.out, d.skip(k.out.len() as int)); assert(k.out + d.skip(k.out.len() as int) =~= d);
            assert(l.lz().fed + k.out =~= k.out);
            assert(!lzw_spoilt(l, k, false));
            if n.decoder.state is BlockEnd && took(m, n) { lemma_due_again(m, n, all, rest, d, y); lemma_within(b0, rest, d, y, n.since(m)); }
        }
        assert(false);
    }
}
proof fn lemma_faults(a: Seq<Fault>, b: Seq<Fault>, c: Seq<Fault>)
    requires a.is_prefix_of(b), b.is_prefix_of(c), a == c,
    ensures b == c
{ assert(b =~= c); }
/// a frame that was written is not overlooked
#[verifier::spinoff_prover]
pub proof fn lemma_not_over<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, all: Seq<u8>, a: Abs, rs: Seq<Repeat>, f: Frame<'_>, mc: u8, d: Seq<u8>, y: Seq<u8>)
    requires n.moved(o), plays(n, all), in_front(o, all, a, rs, f, mc, d, y),
    ensures !ended(o, n)
{
    hide(scan); hide(control);
    if ended(o, n) {
        let h = choose|h: Head| #[trigger] found(o, n, head0(), Ev::BlockStart(crate::common::Block::Trailer), n.decoder.abs(), h);
        lemma_played(o, n, all); lemma_scan_frame(o.decoder.cfg(), a, rs, f, mc, d, y, head0());
        let t = all.skip(n.reader.seen().len() as int);
        assert(scan(o.decoder.cfg(), o.decoder.abs(), n.since(o) + t, head0()).ev == Ev::BlockStart(crate::common::Block::Trailer));
    }
}
/// behind the last frame there is no other, and nothing wrong
#[verifier::spinoff_prover]
pub proof fn lemma_the_end<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, p: PixelConverter, q: PixelConverter, g: Frame<'static>, dt: FrameDataType, e: DecodingError, all: Seq<u8>, a: Abs, rs: Seq<Repeat>, y: Seq<u8>)
    requires o.wf(), plays(n, all), due(o, all, the_end(rs, y), a), idle(a), a.started, within(o.decoder.cfg().limit, 15),
    ensures !frame_read(o, n, p, dt, g), !frame_read(o, n, q, dt, g), n.moved(o) ==> !no_colours(o, n, q, g) && !frame_refused(o, n, p, dt, e) && (n.reader.faults() == o.reader.faults() && !oom(e) ==> !wrong(o, n, e)),
{
    hide(scan);
    let cfg = o.decoder.cfg(); let t = seq![0x3Bu8] + y;
    lemma_reps(cfg, a, rs, t, head0()); lemma_trailer(cfg, reps_abs(a, rs), t, Head { rep: reps_last(head0().rep, rs), ..head0() });
    assert forall|m: ReadDecoder<R>, f0: Frame<'_>, dt: FrameDataType| m.moved(o) && n.moved(m) implies !#[trigger] framed(o, m, f0, dt) by {
        lemma_played(m, n, all);
        if framed(o, m, f0, dt) { lemma_no_frame(o, m, f0, dt, all, the_end(rs, y), a); }
    }
    if n.moved(o) {
        o.lemma_refl_moved(); n.lemma_refl_moved();
        if n.reader.faults() == o.reader.faults() && !oom(e) { lemma_not_wrong(o, n, e, all, the_end(rs, y), a); }
    }
}
proof fn lemma_no_frame<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, f0: Frame<'_>, dt: FrameDataType, all: Seq<u8>, x: Seq<u8>, a: Abs)
    requires framed(o, m, f0, dt), m.moved(o), plays(m, all), due(o, all, x, a),
    ensures scan(o.decoder.cfg(), a, x, head0()).ev is Meta
{
    hide(scan);
    lemma_played(o, m, all);
    let t = all.skip(m.reader.seen().len() as int);
    let (b, h) = choose|b: Abs, h: Head| {
        &&& #[trigger] found(o, m, head0(), meta_of(dt), b, h)
        &&& b.cur == Some(pic_of(f0)) && f0.buffer is Borrowed && same(m.decoder.abs(), Abs { cur: Some(Pic { pal: None, ..pic_of(f0) }), ..b })
        &&& if dt is Pixels { !m.decoder.skip_frame_decoding && b.st is DecodeSubBlock && m.decoder.lzw_reader.decoder is Some && lz_fresh(m.decoder.lzw_reader.lz(), b.min) && lz_ok(m.decoder.lzw_reader.lz()) } else { b.st is CopySubBlock }
    };
    assert(scan(o.decoder.cfg(), o.decoder.abs(), m.since(o) + t, head0()) == (Scan { at: m.since(o).len() as int, ev: meta_of(dt), a: b, h, bad: false }));
}
impl<R: Read> ReadDecoder<R> { proof fn lemma_refl_moved(self) ensures self.moved(self) { lemma_arrived0(self, head0()); } }
/// compressing pixels as the encoder does gives data that decodes to them
pub proof fn lemma_codes(px: Seq<u8>)
    ensures codes_for(min_code_size(px), lzw_enc(min_code_size(px), px), px), 2 <= min_code_size(px) <= 8, lzw_image_data(px) == seq![min_code_size(px)] + lzw_enc(min_code_size(px), px),
{ assert(all_small(px, 8)); axiom_lzw_inverse(min_code_size(px), px); }
/// reading stops at the same place whatever follows
proof fn lemma_scan_stop(cfg: Cfg, a: Abs, x: Seq<u8>, t: Seq<u8>, h: Head)
    requires awf(a),
    ensures ({ let z = scan(cfg, a, x, h); !z.bad && stops(z.ev) ==> scan(cfg, a, x + t, h) == z }),
    decreases x.len(), rank2(a.st)
{
    let u = x + t;
    if x.len() > 0 {
        if data_state(a.st) {
            assert(u.skip(1) =~= x.skip(1) + t); let a1 = abs_of(a, bstep(blk_of(a.st), x[0])); lemma_scan_stop(cfg, a1, x.skip(1), t, h);
        } else {
            lemma_step_ext(cfg, a, x, t); lemma_step_rank(cfg, a, x); lemma_step_rank(cfg, a, u);
            match step(cfg, a, x) {
                Res::Step(c, e, a1) => if !stops(e) {
                    assert(u.skip(c) =~= x.skip(c) + t);
                    lemma_scan_stop(cfg, a1, x.skip(c), t, hear(h, e));
                    if step(cfg, a, u) != step(cfg, a, x) { assert(x.skip(c).len() == 0); }
                },
                _ => {}
            }
        }
    }
}
/// an animation (or what is before its first frame or its trailer) as the encoder writes it
pub open spec fn written_as(all: Seq<u8>, cfg: Cfg, w: u16, h: u16, p: Seq<u8>, rs: Seq<Repeat>, f: Option<(Frame<'_>, u8, Seq<u8>)>, y: Seq<u8>) -> bool {
    &&& colors(p) <= 256 && within(cfg.limit, 15) && all == header_bytes(w, h, p) + match f { Some(f) => one_frame(rs, f.0, f.1, f.2, y), None => the_end(rs, y) }
    &&& f matches Some(f) ==> 1 <= f.1 <= 11 && frame_passes(cfg, started_at(w, h), f.0)
}
pub open spec fn cfg_of(o: DecodeOptions) -> Cfg { Cfg { skip: o.skip_frame_decoding, frames: o.check_frame_consistency, unknown: o.allow_unknown_blocks, limit: o.memory_limit, end: o.check_for_end_code } }
/// the header of what was written is not refused
#[verifier::spinoff_prover]
pub proof fn lemma_header_taken<R: Read>(o: DecodeOptions, n: ReadDecoder<R>, e: DecodingError, all: Seq<u8>, w: u16, h: u16, p: Seq<u8>, rs: Seq<Repeat>, f: Option<(Frame<'_>, u8, Seq<u8>)>, y: Seq<u8>)
    requires refused_at(o, n, e), plays(n, all), written_as(all, cfg_of(o), w, h, p, rs, f, y),
    ensures n.reader.faults().len() > 0 || oom(e)
{
    hide(scan); hide(control);
    let cfg = cfg_of(o); let x = n.reader.seen() + n.reader.ahead(); let t = all.skip(x.len() as int);
    assert(x + t =~= all) by { assert(x =~= all.subrange(0, x.len() as int)); }
    lemma_scan_bad(cfg, abs0(), x, t, head0()); lemma_scan_stop(cfg, abs0(), x, t, head0());
    if let Some(q) = f {
        let a3 = Abs { st: State::BlockStart(0x2C), started: true, ..behind_control(reps_abs(behind_header(w, h), rs), control_of(q.0)) };
        lemma_opening_frame(cfg, w, h, p, rs, q.0, q.1, q.2, y, header_len(p) + reps_bytes(rs).len() + 9, a3);
    } else {
        let a3 = Abs { st: State::BlockStart(0x3B), started: true, ..reps_abs(behind_header(w, h), rs) };
        lemma_opening_end(cfg, w, h, p, rs, y, header_len(p) + reps_bytes(rs).len(), a3);
    }
}
// ---------------------------------------------------------------- the calls of a program that reads back what was written
/// reading the header
pub fn open_written<R: Read>(o: DecodeOptions, r: R, Ghost(all): Ghost<Seq<u8>>, Ghost(w): Ghost<u16>, Ghost(h): Ghost<u16>, Ghost(p): Ghost<Seq<u8>>, Ghost(rs): Ghost<Seq<Repeat>>, Ghost(f): Ghost<Option<(Frame<'static>, u8, Seq<u8>)>>, Ghost(y): Ghost<Seq<u8>>) -> (res: Result<Decoder<R>, DecodingError>)
    requires written_as(all, cfg_of(o), w, h, p, rs, f, y),
    ensures
        res matches Ok(d) ==> d.wf() && !d.decoder.at_eof && d.decoder.decoder.cfg() == cfg_of(o) && d.pixel_converter.color_output == o.color_output && d.pixel_converter.memory_limit == o.memory_limit && d.decoder.reader.faults().len() == 0 && (plays(d.decoder, all) ==> header_told(d, w, h, p, rs) && due(d.decoder, all, match f { Some(f) => one_frame(rs, f.0, f.1, f.2, y), None => the_end(rs, y) }, started_at(w, h)) && ready_for_frames(started_at(w, h), w, h)),
        res matches Err(e) ==> exists|n: ReadDecoder<R>| #[trigger] refused_at(o, n, e) && (plays(n, all) ==> n.reader.faults().len() > 0 || oom(e)),
{
    let res = o.read_info(r);
    proof {
        if res is Ok { let d = res->Ok_0; if plays(d.decoder, all) { lemma_told_header(o, d, all, w, h, p, rs, f, y); } }
        else { let e = res->Err_0; let n = choose|n: ReadDecoder<R>| #[trigger] refused_at(o, n, e); if plays(n, all) { lemma_header_taken(o, n, e, all, w, h, p, rs, f, y); } }
    }
    res
}
/// reading the next frame
pub fn read_written<R: Read>(d: &mut Decoder<R>, Ghost(all): Ghost<Seq<u8>>, Ghost(a): Ghost<Abs>, Ghost(rs): Ghost<Seq<Repeat>>, Ghost(f): Ghost<Frame<'static>>, Ghost(mc): Ghost<u8>, Ghost(z): Ghost<Seq<u8>>, Ghost(px): Ghost<Seq<u8>>, Ghost(y): Ghost<Seq<u8>>) -> (r: Result<bool, DecodingError>)
    requires old(d).wf(), plays(old(d).decoder, all) ==> in_front(old(d).decoder, all, a, rs, f, mc, z, y), codes_for(mc, z, px), has_room(old(d).pixel_converter.memory_limit, old(d).pixel_converter.color_output, old(d).decoder.decoder.cfg(), f, z, px), plays(old(d).decoder, all) ==> old(d).pixel_converter.global_palette is Some,
    ensures final(d).wf(), final(d).same_options(*old(d)), final(d).decoder.moved(old(d).decoder), r is Ok ==> final(d).decoder.reader.faults() == old(d).decoder.reader.faults(),
        plays(final(d).decoder, all) ==> match r {
            Ok(b) => b && ({ let a2 = behind_data(behind_frame(old(d).decoder.decoder.cfg(), a, rs, f, mc, z)); ready_for_frames(a2, a.w, a.h) && frame_came(final(d).decoder, final(d).pixel_converter, final(d).current_frame_data_type, final(d).current_frame, all, a2, f, mc, z, px, y) }),
            Err(e) => final(d).decoder.reader.faults() != old(d).decoder.reader.faults() || oom(e),
        },
{
    let ghost all0 = *d; let ghost o = d.decoder;
    let r = match d.read_next_frame() { Ok(Some(_)) => Ok(true), Ok(None) => Ok(false), Err(e) => Err(e) };
    proof {
        let n = d.decoder;
        if plays(n, all) {
            lemma_played(o, n, all);
            if r is Err { let e = r->Err_0; if n.reader.faults() == o.reader.faults() && !oom(e) { lemma_not_refused(o, n, all0.pixel_converter, d.pixel_converter, d.current_frame, d.current_frame_data_type, e, all, a, rs, f, mc, z, px, y); } }
            else if r->Ok_0 { lemma_told_frame(o, n, d.pixel_converter, d.current_frame_data_type, d.current_frame, all, a, rs, f, mc, z, px, y); } else { lemma_not_over(o, n, all, a, rs, f, mc, z, y); }
        }
    }
    r
}
/// reading on behind the last frame
pub fn read_written_end<R: Read>(d: &mut Decoder<R>, Ghost(all): Ghost<Seq<u8>>, Ghost(a): Ghost<Abs>, Ghost(rs): Ghost<Seq<Repeat>>, Ghost(y): Ghost<Seq<u8>>) -> (r: Result<bool, DecodingError>)
    requires old(d).wf(), plays(old(d).decoder, all) ==> due(old(d).decoder, all, the_end(rs, y), a) && idle(a) && a.started, within(old(d).decoder.decoder.cfg().limit, 15),
    ensures final(d).wf(), final(d).same_options(*old(d)), final(d).decoder.moved(old(d).decoder), r is Ok ==> final(d).decoder.reader.faults() == old(d).decoder.reader.faults(),
        plays(final(d).decoder, all) ==> match r { Ok(b) => !b && final(d).decoder.at_eof, Err(e) => final(d).decoder.reader.faults() != old(d).decoder.reader.faults() || oom(e) },
{
    let ghost all0 = *d; let ghost o = d.decoder;
    let r = match d.read_next_frame() { Ok(Some(_)) => Ok(true), Ok(None) => Ok(false), Err(e) => Err(e) };
    proof {
        let n = d.decoder; let e = r->Err_0;
        if plays(n, all) { lemma_played(o, n, all); lemma_the_end(o, n, all0.pixel_converter, d.pixel_converter, d.current_frame, d.current_frame_data_type, e, all, a, rs, y); }
    }
    r
}
/// a frame as it was handed to the encoder: after the repetition counts `rs`, with the pixels `px` and their compressed form `d`
pub ghost struct Item { pub rs: Seq<Repeat>, pub f: Frame<'static>, pub mc: u8, pub d: Seq<u8>, pub px: Seq<u8> }
/// what the encoder writes behind the header
pub open spec fn frames_bytes(its: Seq<Item>, rs: Seq<Repeat>, y: Seq<u8>) -> Seq<u8>
    decreases its.len()
{ if its.len() == 0 { the_end(rs, y) } else { let i = its[0]; one_frame(i.rs, i.f, i.mc, i.d, frames_bytes(its.skip(1), rs, y)) } }
/// the decoder's options let the frame pass
pub open spec fn item_passes(cfg: Cfg, lim: MemoryLimit, out: ColorOutput, w: u16, h: u16, i: Item) -> bool {
    1 <= i.mc <= 11 && codes_for(i.mc, i.d, i.px) && frame_passes(cfg, started_at(w, h), i.f) && has_room(lim, out, cfg, i.f, i.d, i.px)
}
pub ghost struct Got { pub p: PixelConverter, pub dt: FrameDataType, pub g: Frame<'static> }
/// reading all the frames, up to the end
#[verifier::spinoff_prover]
pub fn read_all_written<R: Read>(d: &mut Decoder<R>, n: usize, Ghost(all): Ghost<Seq<u8>>, Ghost(w): Ghost<u16>, Ghost(h): Ghost<u16>, Ghost(a0): Ghost<Abs>, Ghost(its): Ghost<Seq<Item>>, Ghost(rs): Ghost<Seq<Repeat>>, Ghost(y): Ghost<Seq<u8>>) -> (r: (Result<(), DecodingError>, Ghost<Seq<Got>>))
    requires old(d).wf(), plays(old(d).decoder, all) ==> old(d).pixel_converter.global_palette is Some, within(old(d).decoder.decoder.cfg().limit, 15), n == its.len(), ready_for_frames(a0, w, h),
        plays(old(d).decoder, all) ==> due(old(d).decoder, all, frames_bytes(its, rs, y), a0),
        forall|i: int| 0 <= i < its.len() ==> item_passes(old(d).decoder.decoder.cfg(), old(d).pixel_converter.memory_limit, old(d).pixel_converter.color_output, w, h, #[trigger] its[i]),
    ensures final(d).wf(), final(d).same_options(*old(d)), final(d).decoder.moved(old(d).decoder),
        plays(final(d).decoder, all) ==> match r.0 {
            Ok(_) => r.1@.len() == n && (forall|i: int| 0 <= i < n ==> ({ let k = #[trigger] r.1@[i]; k.p.same_but_buffer(old(d).pixel_converter) && came_back(old(d).decoder.decoder.cfg(), k.p, k.dt, k.g, its[i].f, its[i].mc, its[i].d, its[i].px) })) && final(d).decoder.at_eof,
            Err(e) => final(d).decoder.reader.faults() != old(d).decoder.reader.faults() || oom(e),
        },
{
    let ghost mut got: Seq<Got> = Seq::empty(); let ghost mut a = a0;
    let mut k = 0;
    proof { d.decoder.lemma_refl_moved(); if plays(d.decoder, all) { lemma_played(d.decoder, d.decoder, all); } assert(its.skip(0) =~= its); }
    while k < n
        invariant k <= n, n == its.len(), d.wf(), d.same_options(*old(d)), d.decoder.moved(old(d).decoder), d.decoder.reader.faults() == old(d).decoder.reader.faults(),
            plays(d.decoder, all) ==> old(d).pixel_converter.global_palette is Some, within(old(d).decoder.decoder.cfg().limit, 15), got.len() == k,
            forall|i: int| 0 <= i < its.len() ==> item_passes(old(d).decoder.decoder.cfg(), old(d).pixel_converter.memory_limit, old(d).pixel_converter.color_output, w, h, #[trigger] its[i]),
            plays(d.decoder, all) ==> due(d.decoder, all, frames_bytes(its.skip(k as int), rs, y), a) && ready_for_frames(a, w, h)
                && forall|i: int| 0 <= i < k ==> ({ let g = #[trigger] got[i]; g.p.same_but_buffer(old(d).pixel_converter) && came_back(old(d).decoder.decoder.cfg(), g.p, g.dt, g.g, its[i].f, its[i].mc, its[i].d, its[i].px) }),
        decreases n - k
    {
        let ghost it = its[k as int]; let ghost y2 = frames_bytes(its.skip(k + 1), rs, y); let ghost o = d.decoder; let ghost cfg = d.decoder.decoder.cfg();
        proof {
            assert(item_passes(cfg, old(d).pixel_converter.memory_limit, old(d).pixel_converter.color_output, w, h, it));
            assert(its.skip(k as int)[0] == it); assert(its.skip(k as int).skip(1) =~= its.skip(k + 1));
        }
        let r = read_written(d, Ghost(all), Ghost(a), Ghost(it.rs), Ghost(it.f), Ghost(it.mc), Ghost(it.d), Ghost(it.px), Ghost(y2));
        proof {
            if plays(d.decoder, all) { lemma_played(o, d.decoder, all); }
            lemma_moved(old(d).decoder, o, d.decoder);
            got = got.push(Got { p: d.pixel_converter, dt: d.current_frame_data_type, g: d.current_frame });
            a = behind_data(behind_frame(cfg, a, it.rs, it.f, it.mc, it.d));
        }
        match r { Ok(true) => {}, Ok(false) => { return (Ok(()), Ghost(got)); }, Err(e) => { return (Err(e), Ghost(got)); } }
        k = k + 1;
    }
    let ghost o = d.decoder;
    proof { assert(its.skip(k as int) =~= Seq::empty()); }
    let r = read_written_end(d, Ghost(all), Ghost(a), Ghost(rs), Ghost(y));
    proof { if plays(d.decoder, all) { lemma_played(o, d.decoder, all); } }
    match r { Ok(_) => (Ok(()), Ghost(got)), Err(e) => (Err(e), Ghost(got)) }
}
/// the animation of size `w` x `h` with the palette `p`, as the encoder writes it (`write_all`), read back: the header and every frame are what was written
#[verifier::spinoff_prover]
pub fn read_back<R: Read>(o: DecodeOptions, r: R, n: usize, Ghost(all): Ghost<Seq<u8>>, Ghost(w): Ghost<u16>, Ghost(h): Ghost<u16>, Ghost(p): Ghost<Seq<u8>>, Ghost(its): Ghost<Seq<Item>>, Ghost(rs): Ghost<Seq<Repeat>>) -> (res: (Result<(Decoder<R>, u16, u16), DecodingError>, Ghost<Seq<Got>>))
    requires all == header_bytes(w, h, p) + frames_bytes(its, rs, Seq::empty()), colors(p) <= 256, within(o.memory_limit, 15), n == its.len(),
        forall|i: int| 0 <= i < its.len() ==> item_passes(cfg_of(o), o.memory_limit, o.color_output, w, h, #[trigger] its[i]),
    ensures match res.0 {
        Ok((d, width, height)) => plays(d.decoder, all) ==> width == w && height == h && d.repeat == reps_last(Repeat::Finite(0), if n == 0 { rs } else { its[0].rs })
            && d.bg_color == Some(0u8) && d.pixel_converter.global_palette is Some && d.pixel_converter.global_palette->0@ == table_bytes(p) && d.decoder.at_eof && res.1@.len() == n
            && forall|i: int| 0 <= i < n ==> ({ let k = #[trigger] res.1@[i]; k.p.color_output == o.color_output && k.p.global_palette is Some && k.p.global_palette->0@ == table_bytes(p) && came_back(cfg_of(o), k.p, k.dt, k.g, its[i].f, its[i].mc, its[i].d, its[i].px) }),
        Err(e) => exists|n: ReadDecoder<R>| #[trigger] got_stuck(n, all, e),
    }
{
    hide(frames_bytes); hide(one_frame); hide(header_bytes);
    let ghost f = if n == 0 { None } else { Some((its[0].f, its[0].mc, its[0].d)) };
    let ghost rs0 = if n == 0 { rs } else { its[0].rs }; let ghost y = if n == 0 { Seq::empty() } else { frames_bytes(its.skip(1), rs, Seq::empty()) };
    proof { reveal_with_fuel(frames_bytes, 1); if n > 0 { assert(item_passes(cfg_of(o), o.memory_limit, o.color_output, w, h, its[0])); } }
    let mut d = match open_written(o, r, Ghost(all), Ghost(w), Ghost(h), Ghost(p), Ghost(rs0), Ghost(f), Ghost(y)) {
        Ok(d) => d,
        Err(e) => { proof { let m = choose|m: ReadDecoder<R>| #[trigger] refused_at(o, m, e) && (plays(m, all) ==> m.reader.faults().len() > 0 || oom(e)); assert(got_stuck(m, all, e)); } return (Err(e), Ghost(Seq::empty())); }
    };
    let ghost d0 = d;
    let (width, height) = (d.decoder.decoder.width, d.decoder.decoder.height);
    proof { assert(plays(d.decoder, all) ==> due(d.decoder, all, frames_bytes(its, rs, Seq::empty()), started_at(w, h))); assert(d.decoder.reader.faults() =~= Seq::empty()); }
    let r = read_all_written(&mut d, n, Ghost(all), Ghost(w), Ghost(h), Ghost(started_at(w, h)), Ghost(its), Ghost(rs), Ghost(Seq::empty()));
    proof { if plays(d.decoder, all) { lemma_played(d0.decoder, d.decoder, all); } }
    match r.0 { Ok(_) => (Ok((d, width, height)), r.1), Err(e) => { proof { assert(d.decoder.reader.faults().len() == 0 ==> d.decoder.reader.faults() =~= Seq::empty()); assert(got_stuck(d.decoder, all, e)); } (Err(e), r.1) } }
}
/// reading came to `n` and went no further, which is for the reader (it failed, or delivered other bytes) or for lack of memory
pub open spec fn got_stuck<R: Read>(n: ReadDecoder<R>, all: Seq<u8>, e: DecodingError) -> bool { plays(n, all) ==> n.reader.faults().len() > 0 || oom(e) }
}
//// file encoder.rs
//// tail props=C25
// ---------------------------------------------------------------- the calls of a program that writes an animation (C25)
verus!{
/// a frame and how it is handed over: after the repetition counts `reps`, with its pixels or (`pre`) compressed before
pub struct Shot { pub reps: Vec<Repeat>, pub frame: Frame<'static>, pub pre: bool }
pub open spec fn shot_is(s: Shot, i: crate::reader::Item) -> bool {
    let b = cow_bytes(s.frame.buffer);
    i.rs == s.reps@ && i.f == s.frame && if s.pre { b == seq![i.mc] + i.d && 2 <= i.mc <= 11 } else { i.px == b && i.mc == min_code_size(b) && i.d == lzw_enc(i.mc, b) && s.frame.width > 0 && s.frame.height > 0 && s.frame.width * s.frame.height <= b.len() }
}
/// a frame whose pixels were compressed before is the same frame
pub fn pre_encode(s: &mut Shot, Ghost(i): Ghost<crate::reader::Item>) -> (n: Ghost<crate::reader::Item>)
    requires shot_is(*old(s), i), !old(s).pre,
    ensures shot_is(*final(s), n@), final(s).pre, n@.rs == i.rs && n@.mc == i.mc && n@.d == i.d && n@.px == i.px && forall|x: Seq<u8>| frame_bytes(n@.f, x) == frame_bytes(i.f, x),
{
    s.frame.make_lzw_pre_encoded();
    s.pre = true;
    let ghost f = s.frame;
    proof { crate::reader::lemma_codes(i.px); }
    Ghost(crate::reader::Item { f, ..i })
}
pub fn write_repeats<W: Write>(e: &mut Encoder<W>, rs: &Vec<Repeat>) -> (r: Result<(), EncodingError>)
    requires old(e).open(),
    ensures final(e).open(), final(e).same_cfg(*old(e)), match r {
        Ok(_) => final(e).out() =~= old(e).out() + crate::reader::reps_bytes(rs@) && final(e).out_room() + crate::reader::reps_bytes(rs@).len() >= old(e).out_room(),
        Err(_) => old(e).out_room() < crate::reader::reps_bytes(rs@).len() },
{
    let mut k = 0;
    proof { assert(rs@.skip(0) =~= rs@); }
    while k < rs.len()
        invariant k <= rs.len(), e.open(), e.same_cfg(*old(e)), e.out() + crate::reader::reps_bytes(rs@.skip(k as int)) =~= old(e).out() + crate::reader::reps_bytes(rs@),
            e.out_room() + crate::reader::reps_bytes(rs@).len() >= old(e).out_room() + crate::reader::reps_bytes(rs@.skip(k as int)).len(),
        decreases rs.len() - k
    {
        proof { assert(rs@.skip(k as int).skip(1) =~= rs@.skip(k + 1)); assert(rs@.skip(k as int)[0] == rs@[k as int]); }
        match e.set_repeat(rs[k]) { Ok(_) => {}, Err(x) => { return Err(x); } }
        k = k + 1;
    }
    Ok(())
}
pub fn write_all<W: Write>(w: W, width: u16, height: u16, pal: &[u8], shots: &Vec<Shot>, last: &Vec<Repeat>, Ghost(its): Ghost<Seq<crate::reader::Item>>) -> (r: Result<W, EncodingError>)
    requires w.written().len() == 0, colors(pal@) <= 256, its.len() == shots.len(),
        forall|i: int| 0 <= i < its.len() ==> shot_is(shots@[i], #[trigger] its[i]) && !frame_rejected(its[i].f, colors(pal@) > 0),
    ensures ({ let all = header_bytes(width, height, pal@) + crate::reader::frames_bytes(its, last@, Seq::empty()); match r {
        Ok(v) => v.written() =~= all,
        Err(e) => w.room() < all.len() || e == EncodingError::Io(err_of_kind(io::ErrorKind::OutOfMemory)) } }),
{
    let ghost all = header_bytes(width, height, pal@) + crate::reader::frames_bytes(its, last@, Seq::empty());
    let ghost room = w.room();
    let mut e = match Encoder::new(w, width, height, pal) { Ok(e) => e, Err(x) => { return Err(x); } };
    let mut k = 0;
    proof { assert(its.skip(0) =~= its); }
    while k < shots.len()
        invariant k <= shots.len(), shots.len() == its.len(), e.open(), e.has_global() == (colors(pal@) > 0), all == header_bytes(width, height, pal@) + crate::reader::frames_bytes(its, last@, Seq::empty()),
            forall|i: int| 0 <= i < its.len() ==> shot_is(shots@[i], #[trigger] its[i]) && !frame_rejected(its[i].f, colors(pal@) > 0),
            e.out() + crate::reader::frames_bytes(its.skip(k as int), last@, Seq::empty()) =~= all, e.out_room() + e.out().len() >= room, room == w.room(),
        decreases shots.len() - k
    {
        let ghost it = its[k as int]; let ghost o = e.out();
        let ghost rest = crate::reader::frames_bytes(its.skip(k + 1), last@, Seq::empty());
        proof { assert(shot_is(shots@[k as int], it)); assert(its.skip(k as int).skip(1) =~= its.skip(k + 1)); assert(its.skip(k as int)[0] == it);
            assert(all =~= o + (crate::reader::reps_bytes(it.rs) + frame_bytes(it.f, seq![it.mc] + it.d) + rest)); assert(all.len() == o.len() + crate::reader::reps_bytes(it.rs).len() + frame_bytes(it.f, seq![it.mc] + it.d).len() + rest.len()); }
        let s = &shots[k];
        match write_repeats(&mut e, &s.reps) { Ok(_) => {}, Err(x) => { return Err(x); } }
        let r = if s.pre { e.write_lzw_pre_encoded_frame(&s.frame) } else { e.write_frame(&s.frame) };
        match r { Ok(_) => {}, Err(x) => { return Err(x); } }
        k = k + 1;
    }
    proof { assert(its.skip(k as int) =~= Seq::empty()); assert(all =~= e.out() + (crate::reader::reps_bytes(last@) + (seq![0x3Bu8] + Seq::empty()))); assert(all.len() == e.out().len() + crate::reader::reps_bytes(last@).len() + 1); }
    match write_repeats(&mut e, last) { Ok(_) => {}, Err(x) => { return Err(x); } }
    match e.into_inner() { Ok(w) => Ok(w), Err(x) => Err(EncodingError::Io(x)) }
}
}
