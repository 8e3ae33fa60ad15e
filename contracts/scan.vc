//// file reader/mod.rs
//// tail
verus!{
/// What the events before the first frame said
pub struct Head { pub bg: Option<u8>, pub pal: Option<Seq<u8>>, pub rep: Repeat }
pub open spec fn hear(h: Head, e: Ev) -> Head {
    match e { Ev::BackgroundColor(c) => Head { bg: Some(c), ..h }, Ev::GlobalPalette(p) => Head { pal: if p.len() > 0 { Some(p) } else { None }, ..h }, Ev::Repetitions(r) => Head { rep: r, ..h }, _ => h }
}
/// events at which reading frame by frame stops: end of the header, a frame, the trailer
pub open spec fn stops(e: Ev) -> bool { e is Meta || e is HeaderEnd || e == Ev::BlockStart(crate::common::Block::Trailer) }
/// Where reading got to, and why it stopped there (`Nothing`: the input is over).
pub struct Scan { pub at: int, pub ev: Ev, pub a: Abs, pub h: Head, pub bad: bool }
/// malformed input
pub open spec fn broken() -> Scan { Scan { bad: true, ..arbitrary() } }
pub open spec fn later(c: int, s: Scan) -> Scan { if s.bad { s } else { Scan { at: c + s.at, ..s } } }
pub open spec fn rank2(st: State) -> nat { match st { State::GlobalPalette(_) => 4, State::BlockEnd => 4, State::BlockStart(_) => 3, State::ExtensionBlockStart => 3, State::ExtensionDataBlock(_) => 2, State::ImageBlockStart => 1, State::ApplicationExtension => 1, _ => 0 } }
/// What the bytes `s` mean to a decoder in state `a`, up to the next frame, the end of the header or the trailer. Image data on the way is skipped.
pub open spec fn scan(cfg: Cfg, a: Abs, s: Seq<u8>, h: Head) -> Scan
    decreases s.len(), rank2(a.st)
{
    if s.len() == 0 { Scan { at: 0, ev: Ev::Nothing, a, h, bad: false } }
    else if data_state(a.st) { later(1, scan(cfg, abs_of(a, bstep(blk_of(a.st), s[0])), s.skip(1), h)) }
    else {
        match step(cfg, a, s) {
            Res::Step(c, e, a1) => if stops(e) || !(0 <= c <= s.len()) || !(c > 0 || rank2(a1.st) < rank2(a.st)) { Scan { at: c, ev: e, a: a1, h: hear(h, e), bad: false } } else { later(c, scan(cfg, a1, s.skip(c), hear(h, e))) },
            _ => broken(),
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_step_rank(cfg: Cfg, a: Abs, s: Seq<u8>)
    requires s.len() > 0, !data_state(a.st), awf(a),
    ensures step(cfg, a, s) matches Res::Step(c, e, a1) ==> 0 <= c <= s.len() && (stops(e) || c > 0 || rank2(a1.st) < rank2(a.st)) && awf(a1),
{ reveal(step); }
/// every event gets reading on
pub proof fn lemma_upd_rank(cfg: Cfg, a: Abs, s: Seq<u8>)
    requires !data_state(a.st), awf(a),
    ensures upd(cfg, a, s) matches Res::Step(c, e, a1) ==> e is Nothing || stops(e) || c > 0 || rank2(a1.st) < rank2(a.st),
    decreases s.len(), rank(a.st)
{
    if s.len() > 0 {
        lemma_upd_data(cfg, a, s); lemma_step_rank(cfg, a, s);
        match step(cfg, a, s) { Res::Step(c, e, a1) => if e is Nothing && 0 <= c <= s.len() && (c > 0 || rank(a1.st) < rank(a.st)) { lemma_upd_ext(cfg, a1, s.skip(c), Seq::empty()); lemma_upd_rank(cfg, a1, s.skip(c)); } else {}, _ => {} }
    }
}
/// before the end of the header
pub open spec fn early(a: Abs) -> bool { !a.started && !(a.st is ImageBlockStart || a.st is LocalPalette || a.st is LzwInit || data_state(a.st) || a.st is FrameDecoded) }
pub open spec fn heading(r: Res) -> bool { r matches Res::Step(c, e, a1) ==> e is HeaderEnd || (early(a1) && !(e is Meta)) }
pub proof fn lemma_early(cfg: Cfg, a: Abs, s: Seq<u8>)
    requires early(a),
    ensures heading(upd(cfg, a, s))
    decreases s.len(), rank(a.st)
{
    if s.len() > 0 {
        lemma_upd_data(cfg, a, s);
        assert(heading(step(cfg, a, s))) by { reveal(step); }
        match step(cfg, a, s) { Res::Step(c, e, a1) => if e is Nothing && 0 <= c <= s.len() && (c > 0 || rank(a1.st) < rank(a.st)) { lemma_early(cfg, a1, s.skip(c)); } else {}, _ => {} }
    }
}
/// states that belong to a frame have one
pub open spec fn full(a: Abs) -> bool { a.st is ImageBlockStart || a.st is LocalPalette || a.st is LzwInit ==> a.cur is Some }
pub open spec fn meta_ok(cfg: Cfg, a: Abs, r: Res) -> bool {
    r matches Res::Step(c, e, a1) ==> full(a1) && (a.started ==> a1.started && !(e is HeaderEnd)) && (e is HeaderEnd ==> a1.started) && (e is Meta ==> a1.cur is Some && if cfg.skip { a1.st is CopySubBlock && e->Meta_0 is Some } else { a1.st is DecodeSubBlock && e->Meta_0 is None })
}
/// image data starts behind a frame's descriptor
#[verifier::spinoff_prover]
pub proof fn lemma_enter(cfg: Cfg, a: Abs, s: Seq<u8>)
    requires !data_state(a.st),
    ensures upd(cfg, a, s) matches Res::Step(c, e, a1) ==> data_state(a1.st) ==> e is Meta
    decreases s.len(), rank(a.st)
{
    if s.len() > 0 {
        assert(step(cfg, a, s) matches Res::Step(c, e, a1) ==> data_state(a1.st) ==> e is Meta) by { reveal(step); }
        match step(cfg, a, s) { Res::Step(c, e, a1) => if e is Nothing && 0 <= c <= s.len() && (c > 0 || rank(a1.st) < rank(a.st)) { lemma_enter(cfg, a1, s.skip(c)); } else {}, _ => {} }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_meta_step(cfg: Cfg, a: Abs, s: Seq<u8>)
    requires full(a), !data_state(a.st), s.len() > 0,
    ensures meta_ok(cfg, a, step(cfg, a, s))
{ reveal(step); }
#[verifier::spinoff_prover]
pub proof fn lemma_meta(cfg: Cfg, a: Abs, s: Seq<u8>)
    requires full(a), !data_state(a.st),
    ensures meta_ok(cfg, a, upd(cfg, a, s))
    decreases s.len(), rank(a.st)
{
    if s.len() > 0 {
        lemma_upd_data(cfg, a, s);
        lemma_meta_step(cfg, a, s);
        match step(cfg, a, s) { Res::Step(c, e, a1) => if e is Nothing && 0 <= c <= s.len() && (c > 0 || rank(a1.st) < rank(a.st)) { lemma_meta(cfg, a1, s.skip(c)); } else {}, _ => {} }
    }
}
proof fn lemma_brun_left(b: Blk, x: Seq<u8>)
    requires b.left <= 255, !b.end,
    ensures !brun(b, x).end ==> brun(b, x).left <= 255
    decreases x.len()
{ if x.len() > 0 { lemma_brun_left(b, x.drop_last()); lemma_brun_end(b, x.drop_last()); } }
/// once the terminator was seen there is nothing more to the image data
proof fn lemma_brun_end(b: Blk, x: Seq<u8>)
    ensures b.end ==> brun(b, x) == (Blk { left: b.left + x.len(), ..b })
    decreases x.len()
{ if x.len() > 0 { lemma_brun_end(b, x.drop_last()); } }
pub proof fn lemma_scan_data(cfg: Cfg, a: Abs, x: Seq<u8>, t: Seq<u8>, h: Head)
    requires data_state(a.st), left_of(a.st) <= 255, ({ let b = brun(blk_of(a.st), x); b.end ==> b.left == 0 }),
    ensures scan(cfg, a, x + t, h) == later(x.len() as int, scan(cfg, abs_of(a, brun(blk_of(a.st), x)), t, h))
    decreases x.len()
{
    let b0 = blk_of(a.st);
    if x.len() == 0 { assert(x + t =~= t); assert(abs_of(a, b0) == a); }
    else {
        let y = x.skip(1); let b1 = bstep(b0, x[0]); let a1 = abs_of(a, b1);
        assert(x =~= seq![x[0]] + y); lemma_brun_add(b0, seq![x[0]], y); lemma_brun_one(b0, x[0]);
        assert((x + t).skip(1) =~= y + t);
        if b1.end {
            lemma_brun_end(b1, y); assert(y =~= Seq::empty()); assert(y + t =~= t);
        } else {
            assert(blk_of(a1.st) == Blk { out: Seq::empty(), ..b1 });
            lemma_brun_out(b1, y);
            lemma_scan_data(cfg, a1, y, t, h);
            assert(abs_of(a1, brun(blk_of(a1.st), y)) == abs_of(a, brun(b0, x)));
        }
    }
}
/// one event outside image data, whatever follows
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_scan_upd(cfg: Cfg, a: Abs, x: Seq<u8>, t: Seq<u8>, h: Head)
    requires !data_state(a.st), awf(a),
    ensures upd(cfg, a, x) matches Res::Step(c, e, a1) ==> 0 <= c <= x.len() && scan(cfg, a, x + t, h) == if stops(e) { Scan { at: c, ev: e, a: a1, h: hear(h, e), bad: false } } else { later(c, scan(cfg, a1, (x + t).skip(c), hear(h, e))) },
        upd(cfg, a, x) is Err ==> scan(cfg, a, x + t, h).bad,
    decreases x.len(), rank(a.st)
{
    let u = x + t;
    if x.len() == 0 { assert(u =~= t); assert(u.skip(0) =~= u); }
    else {
        lemma_upd_data(cfg, a, x); lemma_upd_data(cfg, a, u); lemma_step_ext(cfg, a, x, t); lemma_step_rank(cfg, a, x); lemma_step_rank(cfg, a, u);
        match step(cfg, a, x) {
            Res::Step(c, e, a1) => {
                assert(u.skip(c) =~= x.skip(c) + t);
                if e is Nothing {
                    assert(hear(h, e) == h);
                    lemma_scan_upd(cfg, a1, x.skip(c), t, h);
                    match upd(cfg, a1, x.skip(c)) { Res::Step(d, f, a2) => { assert(u.skip(c).skip(d) =~= u.skip(c + d)); } _ => {} }
                    if step(cfg, a, u) != step(cfg, a, x) {
                        assert(x.skip(c) =~= Seq::empty()); assert(u.skip(c) =~= t);
                        lemma_upd_data(cfg, a1, t); lemma_step_rank(cfg, a1, t);
                        match step(cfg, a1, t) { Res::Step(d, f, a2) => { assert(u.skip(c + d) =~= t.skip(d)); } _ => {} }
                    }
                }
            }
            _ => {}
        }
    }
}
}
