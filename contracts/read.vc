//// file reader/mod.rs
//// type ReadDecoder
/*pub*/
//// fn ReadDecoder::decode_next props=C01,C02,C03,C12,C13,C16,C25
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover]
#[verus_spec(r => requires old(self).wf()
  ensures final(self).wf(), (*final(write_into)).kept(*old(write_into)), final(self).moved(*old(self)),
    /*C16,C25*/ old(self).at_eof ==> r is Ok && r->Ok_0 is None && *final(self) == *old(self) && *final(write_into) == *old(write_into),
    /*C16,C25*/ r is Ok ==> final(self).reader.faults() == old(self).reader.faults(),
    /*C03,C12,C13,C16,C25*/ r is Ok && !old(self).at_eof ==> next_ok(*old(self), *final(self), *old(write_into), *final(write_into), r->Ok_0),
    /*C03,C09,C12,C14,C16,C25*/ r matches Err(e) ==> !final(self).at_eof && next_err(*old(self), *final(self), *old(write_into), e),
)]
//// start
proof_decl!{ let ghost me = *self; let ghost wb = *write_into; let ghost mut got: Seq<u8> = Seq::empty(); let ghost s0 = self.reader.seen(); }
proof!{ broadcast use qm::axiom_question_mark; assert(s0 + got =~= s0); assert(brun(blk_of(self.decoder.state), got) == blk_of(self.decoder.state)); assert(same(self.decoder.abs(), self.decoder.abs())); }
//// loop 0 while
#[verus_spec(
  invariant self.wf(), me.wf(), (*write_into).kept(wb), me.at_eof ==> self.at_eof && *self == me && *write_into == wb, self.decoder.cfg() == me.decoder.cfg(), me.decoder.header_end_reached ==> self.decoder.header_end_reached,
    !me.at_eof ==> {
      &&& self.reader.rest() + got.len() == me.reader.rest() && self.reader.seen() == s0 + got && self.reader.faults() == me.reader.faults()
      &&& me.reader.ahead().is_prefix_of(got + self.reader.ahead())
      &&& self.at_eof ==> next_ok(me, *self, wb, *write_into, None)
      &&& !self.at_eof ==> so_far(me, *self, wb, *write_into, got)
    },
  decreases self.reader.rest(), if self.at_eof { 0int } else { 1int }
)]
//// loopstart 0
proof_decl!{ let ghost at = *self; let ghost wi = *write_into; }
//// at self.reader.fill_buf()
proof!{ broadcast use qm::axiom_question_mark; assert((s0 + got).skip(s0.len() as int) =~= got); }
//// at self.decoder.update(
proof!{ broadcast use qm::axiom_question_mark; if !data_state(at.decoder.state) { lemma_upd_event(at.decoder.cfg(), at.decoder.abs(), buf@); } lemma_next_err(me, at, wb, wi, got, buf@); }
//// at self.reader.consume(
proof_decl!{ let ghost now = *self; }
//// at after:self.reader.consume(
proof!{
    lemma_next(me, at, *self, wb, wi, *write_into, got, now.reader.ahead(), Ok((consumed, result)));
    let x = now.reader.ahead(); let y = x.take(consumed as int); let g2 = got + y;
    assert(self.reader.seen() =~= s0 + g2); assert(self.reader.ahead() == x.skip(consumed as int));
    assert(ReadDecoder { at_eof: false, ..*self } == *self);
    assert(g2 + self.reader.ahead() =~= got + x);
    assert(me.reader.ahead().is_prefix_of(got + x));
    assert((s0 + g2).skip(s0.len() as int) =~= g2);
    got = g2;
}
//// at self.at_eof = true
proof!{ assert(next_ok(me, ReadDecoder { at_eof: true, ..*self }, wb, *write_into, None)); }
//// loopend 0
proof!{ if self.at_eof { assert(ReadDecoder { at_eof: true, ..*self } == *self); } }
//// fn ReadDecoder::decode_next_bytes props=C01,C02,C12,C16,C25
#[verus_spec(r => requires old(self).wf()
  ensures final(self).wf(), (*final(out)).kept(*old(out)), final(self).moved(*old(self)),
    r matches Ok(n) ==> final(self).reader.faults() == old(self).reader.faults() && data_state(old(self).decoder.state) && !final(self).at_eof
      && /*C12,C25*/ data_to(old(self).decoder, final(self).decoder, brun(blk_of(old(self).decoder.state), final(self).since(*old(self))), *old(out), *final(out), if n > 0 { Ev::Bytes(n as int) } else { Ev::DataEnd }),
    /*C12,C14,C16,C25*/ r matches Err(e) ==> final(self).blamed(*old(self), e),
    /*C12,C14,C25*/ r matches Err(e) ==> old(self).decoder.state is DecodeSubBlock && !old(self).at_eof ==> next_err(*old(self), *final(self), *old(out), e),
)]
//// start
proof!{
    broadcast use qm::axiom_question_mark;
    if !data_state(self.decoder.state) { assert forall|x: Seq<u8>| no_data(#[trigger] upd(self.decoder.cfg(), self.decoder.abs(), x)) by { lemma_upd_event(self.decoder.cfg(), self.decoder.abs(), x); } }
}
//// tail
use crate::vspec::*; use crate::reader::decoder::*;
verus!{
impl<R: Read> ReadDecoder<R> {
    pub open spec fn wf(self) -> bool { self.decoder.wf() && !(self.decoder.state is FrameDecoded) && fits(self.decoder.state, self.reader.ahead()) && (awaits0(self.decoder.state) ==> self.reader.ahead().len() > 0) }
    /// reading went wrong with `e`; if the reader failed or ended, that is what `e` says
    pub open spec fn blamed(self, o: Self, e: DecodingError) -> bool {
        self.reader.faults() == o.reader.faults() || (self.reader.faults().len() == o.reader.faults().len() + 1 && o.reader.faults().is_prefix_of(self.reader.faults()) && told(self.reader.faults().last(), e))
    }
    /// bytes consumed since `o`
    pub open spec fn since(self, o: Self) -> Seq<u8> { self.reader.seen().skip(o.reader.seen().len() as int) }
    /// `self` was reached from `o`
    pub open spec fn moved(self, o: Self) -> bool {
        self.decoder.cfg() == o.decoder.cfg() && o.reader.seen().is_prefix_of(self.reader.seen()) && o.reader.ahead().is_prefix_of(self.since(o) + self.reader.ahead()) && o.reader.faults().is_prefix_of(self.reader.faults())
            && self.reader.rest() + self.since(o).len() == o.reader.rest() && (o.decoder.header_end_reached ==> self.decoder.header_end_reached)
    }
}
/// outside image data: the decoder gets from `a` to `n` by taking the first `c` bytes of `x`, and reports `e`
pub open spec fn reports(cfg: Cfg, a: Abs, x: Seq<u8>, c: int, e: Ev, n: Abs) -> bool { upd(cfg, a, x) matches Res::Step(d, f, a1) && c == d && e == f && same(a1, n) }
/// `decode_next` has taken `got` without anything to report
pub open spec fn so_far<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, got: Seq<u8>) -> bool {
    if data_state(o.decoder.state) { data_to(o.decoder, n.decoder, brun(blk_of(o.decoder.state), got), ob, nb, Ev::Nothing) }
    else { reports(o.decoder.cfg(), o.decoder.abs(), got, got.len() as int, Ev::Nothing, n.decoder.abs()) && !data_state(n.decoder.state) && n.decoder.lzw_reader == o.decoder.lzw_reader && nb == ob }
}
pub open spec fn next_ok<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, e: Option<Decoded>) -> bool {
    let x = n.since(o) + n.reader.ahead(); let ev = match e { Some(d) => ev_of(d), None => Ev::BlockStart(crate::common::Block::Trailer) };
    &&& o.reader.seen().is_prefix_of(n.reader.seen()) && (n.at_eof <==> e is None) && !(ev is Nothing) && (e is Some ==> ev != Ev::BlockStart(crate::common::Block::Trailer))
    &&& if data_state(o.decoder.state) { data_to(o.decoder, n.decoder, brun(blk_of(o.decoder.state), n.since(o)), ob, nb, ev) }
        else {
            &&& reports(o.decoder.cfg(), o.decoder.abs(), x, n.since(o).len() as int, ev, n.decoder.abs()) && nb == ob
            &&& if ev is Meta { !o.decoder.skip_frame_decoding ==> n.decoder.lzw_reader.decoder is Some && lz_fresh(n.decoder.lzw_reader.lz(), n.decoder.lzw_reader.min_code_size) && lz_ok(n.decoder.lzw_reader.lz()) } else { n.decoder.lzw_reader == o.decoder.lzw_reader }
        }
}
/// the error that reports what the reader said
pub open spec fn told(f: Fault, e: DecodingError) -> bool { match f { Fault::Eof => e == DecodingError::Io(err_of_kind(io::ErrorKind::UnexpectedEof)), Fault::Err(x) => e == DecodingError::Io(x) } }
pub open spec fn next_err<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, ob: OutputBuffer<'_>, e: DecodingError) -> bool {
    ||| n.reader.faults() == o.reader.faults() && (oom(e) || if data_state(o.decoder.state) { spoilt(o.decoder, brun(blk_of(o.decoder.state), n.since(o) + n.reader.ahead()), ob) } else { upd(o.decoder.cfg(), o.decoder.abs(), n.since(o) + n.reader.ahead()) is Err })
    ||| n.reader.faults().len() == o.reader.faults().len() + 1 && o.reader.faults().is_prefix_of(n.reader.faults()) && told(n.reader.faults().last(), e)
}
pub open spec fn updated(o: StreamingDecoder, n: StreamingDecoder, x: Seq<u8>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, r: Result<(usize, Decoded), DecodingError>) -> bool {
    &&& !data_state(o.state) ==> nb == ob && follows(upd(o.cfg(), o.abs(), x), r, n.abs()) && (r is Ok && !entering(r) ==> n.lzw_reader == o.lzw_reader)
        && (entering(r) && !o.skip_frame_decoding ==> n.lzw_reader.decoder is Some && lz_fresh(n.lzw_reader.lz(), n.lzw_reader.min_code_size) && lz_ok(n.lzw_reader.lz()))
    &&& data_state(o.state) && r is Ok ==> data_upd(o, n, x, ob, nb, r->Ok_0)
}
#[verifier::spinoff_prover]
pub proof fn lemma_next<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, n: ReadDecoder<R>, ob: OutputBuffer<'_>, wb: OutputBuffer<'_>, nb: OutputBuffer<'_>, got: Seq<u8>, x: Seq<u8>, r: Result<(usize, Decoded), DecodingError>)
    requires so_far(o, m, ob, wb, got), o.wf(), m.wf(), n.decoder.wf(), x.len() > 0, m.decoder.cfg() == o.decoder.cfg(), n.decoder.cfg() == m.decoder.cfg(),
        ob is Slice == wb is Slice, ob is Vec == wb is Vec, ob.room() == wb.room(), updated(m.decoder, n.decoder, x, wb, nb, r),
        r matches Ok(p) ==> p.0 <= x.len() && (ev_of(p.1) is Nothing ==> p.0 == x.len()),
    ensures
        r matches Ok(p) ==> {
            &&& ev_of(p.1) is Nothing ==> so_far(o, n, ob, nb, got + x.take(p.0 as int))
            &&& n.reader.seen() == o.reader.seen() + (got + x.take(p.0 as int)) && n.reader.ahead() == x.skip(p.0 as int) && !(ev_of(p.1) is Nothing) ==>
                if ev_of(p.1) == Ev::BlockStart(crate::common::Block::Trailer) { next_ok(o, ReadDecoder { at_eof: true, ..n }, ob, nb, None) } else { next_ok(o, ReadDecoder { at_eof: false, ..n }, ob, nb, Some(p.1)) }
        },
        r matches Err(e) ==> oom(e) || data_state(o.decoder.state) || upd(o.decoder.cfg(), o.decoder.abs(), got + x) is Err,
{
    let (cfg, a) = (o.decoder.cfg(), o.decoder.abs());
    if r is Ok {
        let p = r->Ok_0; let y = x.take(p.0 as int);
        if n.reader.seen() == o.reader.seen() + (got + y) { assert(n.since(o) =~= got + y); assert(n.since(o) + x.skip(p.0 as int) =~= got + x); }
        if p.0 == x.len() { assert(y =~= x); }
    }
    if data_state(o.decoder.state) {
        assert(data_state(m.decoder.state));
        if r is Ok { let p = r->Ok_0; lemma_data_to(o.decoder, m.decoder, n.decoder, got, x.take(p.0 as int), ob, wb, nb, ev_of(p.1)); }
    } else {
        lemma_upd_ext(cfg, a, got, x); lemma_upd_ext(cfg, m.decoder.abs(), x, Seq::empty());
        let a1 = upd(cfg, a, got)->Step_2;
        assert(a1.has =~= m.decoder.abs().has); assert(a1 == m.decoder.abs());
        assert(upd(cfg, a, got + x) == after(got.len() as int, upd(cfg, m.decoder.abs(), x)));
    }
}
pub proof fn lemma_next_err<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, ob: OutputBuffer<'_>, wb: OutputBuffer<'_>, got: Seq<u8>, x: Seq<u8>)
    requires so_far(o, m, ob, wb, got), o.wf(), m.wf(), m.decoder.cfg() == o.decoder.cfg(), ob is Slice == wb is Slice, ob is Vec == wb is Vec, ob.room() == wb.room(),
    ensures data_state(o.decoder.state) && spoilt(m.decoder, brun(blk_of(m.decoder.state), x), wb) ==> spoilt(o.decoder, brun(blk_of(o.decoder.state), got + x), ob),
        !data_state(o.decoder.state) && x.len() > 0 ==> upd(o.decoder.cfg(), o.decoder.abs(), got + x) == after(got.len() as int, upd(m.decoder.cfg(), m.decoder.abs(), x)), data_state(o.decoder.state) == data_state(m.decoder.state)
{
    let (cfg, a) = (o.decoder.cfg(), o.decoder.abs());
    if !data_state(o.decoder.state) {
        lemma_upd_ext(cfg, a, got, x);
        let a1 = upd(cfg, a, got)->Step_2;
        assert(a1.has =~= m.decoder.abs().has); assert(a1 == m.decoder.abs());
    } else {
        let b0 = blk_of(o.decoder.state); let b = brun(b0, got); let q = brun(blk_of(m.decoder.state), x);
        lemma_brun_add(b0, got, x); assert(blk_of(m.decoder.state) == Blk { out: Seq::empty(), ..b }); lemma_brun_out(b, x);
        if spoilt(m.decoder, q, wb) { lemma_spoilt(o.decoder, m.decoder, b, q, brun(b0, got + x), ob, wb); }
    }
}
pub open spec fn no_data(r: Res) -> bool { r matches Res::Step(c, e, a1) ==> !(e is DataEnd) && !(e is Bytes) && !(e is Copied) }
/// outside image data nothing is reported that belongs there
#[verifier::spinoff_prover]
pub proof fn lemma_upd_event(cfg: Cfg, a: Abs, s: Seq<u8>)
    requires !data_state(a.st), !(a.st is FrameDecoded),
    ensures upd(cfg, a, s) matches Res::Step(c, e, a1) ==> !(a1.st is FrameDecoded) && !(e is DataEnd) && !(e is Bytes) && !(e is Copied)
    decreases s.len(), rank(a.st)
{
    if s.len() > 0 {
        lemma_upd_data(cfg, a, s);
        assert(step(cfg, a, s) matches Res::Step(c, e, a1) ==> !(a1.st is FrameDecoded) && !(e is DataEnd) && !(e is Bytes) && !(e is Copied)) by { reveal(step); }
        match step(cfg, a, s) { Res::Step(c, e, a1) => if e is Nothing && 0 <= c <= s.len() && (c > 0 || rank(a1.st) < rank(a.st)) { lemma_upd_event(cfg, a1, s.skip(c)); } else {}, _ => {} }
    }
}
/// image data read from `o` to `n`, for its pixels
pub open spec fn took<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>) -> bool {
    let b = brun(blk_of(o.decoder.state), n.since(o));
    &&& b.left <= 255 && same(abs_of(o.decoder.abs(), b), n.decoder.abs()) && (b.end ==> b.left == 0 && drained(n.decoder.lzw_reader.lz())) && (!o.at_eof ==> !n.at_eof)
    &&& n.decoder.lzw_reader.decoder is Some && feeds(o.decoder.lzw_reader.lz(), n.decoder.lzw_reader.lz(), b.out)
}
impl<R: Read> crate::reader::converter::DataSource for ReadDecoder<R> {
    open spec fn ready(&self) -> bool { self.wf() }
    open spec fn made(&self) -> Seq<u8> { if self.decoder.lzw_reader.decoder is Some { self.decoder.lzw_reader.lz().made } else { Seq::empty() } }
    /// the image data is over and everything in it has been delivered
    open spec fn done(&self) -> bool { self.decoder.skip_frame_decoding || self.decoder.state is BlockEnd && drained(self.decoder.lzw_reader.lz()) }
    open spec fn through(&self, o: Self) -> bool {
        o.decoder.state is DecodeSubBlock ==> {
            let b = brun(blk_of(o.decoder.state), self.since(o));
            &&& o.reader.seen().is_prefix_of(self.reader.seen()) && took(o, *self)
        }
    }
    open spec fn tried(&self, o: Self) -> bool { self.wf() && self.decoder.cfg() == o.decoder.cfg() && self.moved(o) && self.reader.faults() == o.reader.faults() }
    open spec fn failed(&self, o: Self, e: DecodingError) -> bool { self.wf() && self.decoder.cfg() == o.decoder.cfg() && self.moved(o) && self.blamed(o, e) }
    open spec fn live(&self) -> bool { self.decoder.state is DecodeSubBlock && !self.at_eof }
    open spec fn spoiled(&self, o: Self, e: DecodingError) -> bool {
        o.decoder.state is DecodeSubBlock ==> self.reader.faults() != o.reader.faults() || oom(e) || lzw_spoilt(o.decoder.lzw_reader, brun(blk_of(o.decoder.state), self.since(o) + self.reader.ahead()), false)
    }
    proof fn lemma_refl(&self) { }
    fn fetch(&mut self, out: &mut OutputBuffer<'_>) -> (r: Result<usize, DecodingError>) {
        let ghost m = *self; let ghost ob = *out;
        let r = self.decode_next_bytes(out);
        proof {
            if r is Ok && ob is Slice && ob.room() > 0 {
                assert forall|o: Self| #[trigger] m.through(o) implies self.through(o) by { if o.decoder.state is DecodeSubBlock { lemma_through(o, m, *self, ob, *out, if r->Ok_0 > 0 { Ev::Bytes(r->Ok_0 as int) } else { Ev::DataEnd }); } }
            }
            if r is Err && ob is Slice && ob.room() > 0 && m.live() {
                assert forall|o: Self| #[trigger] m.through(o) && m.tried(o) implies self.spoiled(o, r->Err_0) by { if o.decoder.state is DecodeSubBlock { lemma_spoiled(o, m, *self, ob, r->Err_0); } }
            }
        }
        r
    }
}
pub proof fn lemma_since<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, n: ReadDecoder<R>)
    requires o.reader.seen().is_prefix_of(m.reader.seen()), m.reader.seen().is_prefix_of(n.reader.seen()),
    ensures n.since(o) =~= m.since(o) + n.since(m), n.since(o) == m.since(o) + n.since(m), o.reader.seen().is_prefix_of(n.reader.seen())
{}
pub proof fn lemma_moved<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, n: ReadDecoder<R>)
    requires m.moved(o), n.moved(m),
    ensures n.moved(o)
{
    lemma_since(o, m, n);
    assert((m.since(o) + m.reader.ahead()).is_prefix_of(n.since(o) + n.reader.ahead()));
}
proof fn lemma_spoiled<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, n: ReadDecoder<R>, ob: OutputBuffer<'_>, e: DecodingError)
    requires o.decoder.state is DecodeSubBlock, m.decoder.state is DecodeSubBlock, crate::reader::converter::DataSource::through(&m, o), crate::reader::converter::DataSource::tried(&m, o), n.moved(m), ob is Slice, ob.room() > 0,
        next_err(m, n, ob, e),
    ensures crate::reader::converter::DataSource::spoiled(&n, o, e)
{
    if n.reader.faults() == o.reader.faults() && !oom(e) {
        let b0 = blk_of(o.decoder.state); let (x, y) = (m.since(o), n.since(m) + n.reader.ahead()); let b = brun(b0, x); let q = brun(blk_of(m.decoder.state), y);
        lemma_since(o, m, n); lemma_brun_add(b0, x, y); assert(x + y =~= n.since(o) + n.reader.ahead());
        assert(!b.end); assert(blk_of(m.decoder.state) == Blk { out: Seq::empty(), ..b }); lemma_brun_out(b, y);
        lemma_spoilt(o.decoder, m.decoder, b, q, brun(b0, x + y), ob, ob);
    }
}
proof fn lemma_through<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, n: ReadDecoder<R>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, ev: Ev)
    requires o.decoder.state is DecodeSubBlock, crate::reader::converter::DataSource::through(&m, o), n.moved(m), data_state(m.decoder.state), ob is Slice, ob.room() > 0, !n.at_eof,
        data_to(m.decoder, n.decoder, brun(blk_of(m.decoder.state), n.since(m)), ob, nb, ev),
    ensures crate::reader::converter::DataSource::through(&n, o)
{
    let (x, y) = (m.since(o), n.since(m)); let b0 = blk_of(o.decoder.state); let b1 = brun(b0, x); let b2 = brun(blk_of(m.decoder.state), y);
    lemma_since(o, m, n); lemma_brun_add(b0, x, y);
    assert(!b1.end); assert(m.decoder.state is DecodeSubBlock); assert(blk_of(m.decoder.state) == Blk { out: Seq::empty(), ..b1 });
    lemma_brun_out(b1, y);
    assert(brun(b0, x + y) == Blk { out: b1.out + b2.out, ..b2 });
    lemma_feeds(o.decoder.lzw_reader.lz(), m.decoder.lzw_reader.lz(), n.decoder.lzw_reader.lz(), b1.out, b2.out);
    assert(same(abs_of(o.decoder.abs(), brun(b0, x + y)), n.decoder.abs()));
}
}
