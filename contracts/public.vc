//// file common.rs
//// fn Frame::take props=C01,C05,C17,C25
#[verus_spec(r => ensures r == *old(self), final(self).palette is None, final(self).buffer is Borrowed, *final(self) == (Frame { palette: None, buffer: final(self).buffer, ..*old(self) }))]
//// file reader/mod.rs
//// type Decoder
/*pub*/
//// fn Decoder::with_no_init props=C01,C04,C07,C25
#[verus_spec(r => requires decoder.wf() && decoder.state is Magic
  ensures r.decoder.wf(), r.decoder.decoder == decoder, !r.decoder.at_eof, r.decoder.reader.seen().len() == 0, r.decoder.reader.ahead().len() == 0, r.decoder.reader.faults().len() == 0,
    r.bg_color is None, r.repeat == Repeat::Finite(0), r.pixel_converter.global_palette is None, r.pixel_converter.color_output == options.color_output, r.pixel_converter.memory_limit == options.memory_limit, r.current_frame.buffer is Borrowed)]
//// fn Decoder::init props=C01,C02,C04,C07,C16,C25
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
#[verus_spec(r => requires self.decoder.wf(), early(self.decoder.decoder.abs()), !self.decoder.at_eof, self.bg_color is None, self.pixel_converter.global_palette is None, self.repeat == Repeat::Finite(0)
  ensures r matches Ok(d) ==> d.wf() && d.decoder.moved(self.decoder) && d.decoder.decoder.cfg() == self.decoder.decoder.cfg() && d.decoder.reader.faults() == self.decoder.reader.faults() && !d.decoder.at_eof
      && d.pixel_converter == (PixelConverter { global_palette: d.pixel_converter.global_palette, ..self.pixel_converter })
      && /*C04,C07,C25*/ headed(self.decoder, d.decoder, d.bg_color, d.pixel_converter.global_palette, d.repeat),
    /*C04,C07,C16,C25*/ r matches Err(e) ==> exists|n: ReadDecoder<R>| #[trigger] n.moved(self.decoder) && n.decoder.cfg() == self.decoder.decoder.cfg() && (wrong(self.decoder, n, e) || ended(self.decoder, n)),
)]
//// start
proof_decl!{ let ghost me = self.decoder; let ghost mut h = head0(); }
proof!{ broadcast use {qm::axiom_question_mark, axiom_vec_from_box}; axiom_vec_from_box_obeys(); lemma_arrived0(me, h); }
//// loop 0 loop
#[verus_spec(
  invariant __self.decoder.wf(), !__self.decoder.at_eof, __self.decoder.moved(me), __self.decoder.decoder.cfg() == me.decoder.cfg(), __self.decoder.reader.faults() == me.reader.faults(),
    __self.pixel_converter == (PixelConverter { global_palette: __self.pixel_converter.global_palette, ..self.pixel_converter }),
  invariant_except_break early(__self.decoder.decoder.abs()), heard(me, __self.decoder, __self.bg_color, __self.pixel_converter.global_palette, __self.repeat),
  ensures __self.decoder.decoder.header_end_reached, header(me, __self.decoder, __self.bg_color, __self.pixel_converter.global_palette, __self.repeat),
  decreases __self.decoder.reader.rest(), rank2(__self.decoder.decoder.state)
)]
//// loopstart 0
proof_decl!{ let ghost at = __self.decoder; }
proof!{ broadcast use {qm::axiom_question_mark, axiom_vec_from_box}; h = choose|h: Head| #[trigger] arrived(me, at, head0(), h) && said(h, __self.bg_color, __self.pixel_converter.global_palette, __self.repeat); lemma_hops(me, at, head0(), h); lemma_wrong(me, at, h); }
//// fn Decoder::next_frame_info props=C01,C02,C05,C06,C09,C14,C16,C25
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
#[verus_spec(r => requires old(self).wf()
  ensures final(self).wf(), final(self).decoder.moved(old(self).decoder), final(self).same_options(*old(self)),
    r matches Ok(Some(f)) ==> *f == final(self).current_frame && !final(self).decoder.at_eof,
    /*C05,C06,C25*/ r matches Ok(Some(f)) ==> framed(old(self).decoder, final(self).decoder, final(self).current_frame, final(self).current_frame_data_type),
    /*C05,C25*/ r matches Ok(Some(f)) ==> final(self).current_frame.palette is Some || final(self).pixel_converter.global_palette is Some,
    /*C16,C25*/ r matches Ok(None) ==> final(self).decoder.at_eof && final(self).current_frame == old(self).current_frame && final(self).current_frame_data_type == old(self).current_frame_data_type
        && if old(self).decoder.at_eof { final(self).decoder == old(self).decoder } else { ended(old(self).decoder, final(self).decoder) },
    r is Ok ==> final(self).decoder.reader.faults() == old(self).decoder.reader.faults(),
    /*C16,C25*/ r matches Err(e) ==> !final(self).decoder.at_eof && final(self).decoder.blamed(old(self).decoder, e),
    /*C05,C06,C09,C14,C16,C25*/ r matches Err(e) ==> wrong(old(self).decoder, final(self).decoder, e) || no_colours(old(self).decoder, final(self).decoder, final(self).pixel_converter, final(self).current_frame),
)]
//// start
proof_decl!{ let ghost me = self.decoder; let ghost mut h = head0(); let ghost all = *self; }
proof!{ broadcast use qm::axiom_question_mark; lemma_arrived0(me, h); }
//// loop 0 loop
#[verus_spec(
  invariant self.wf(), self.decoder.moved(me), self.same_options(all), self.decoder.reader.faults() == me.reader.faults(),
  invariant_except_break (exists|h: Head| #[trigger] arrived(me, self.decoder, head0(), h)), self.decoder.at_eof ==> me.at_eof, self.current_frame == all.current_frame, self.current_frame_data_type == all.current_frame_data_type,
    me.at_eof ==> *self == all, self.decoder.decoder.state is DecodeSubBlock ==> self.decoder == me,
  ensures framed(me, self.decoder, self.current_frame, self.current_frame_data_type), self.current_frame.palette is Some || self.pixel_converter.global_palette is Some, !self.decoder.at_eof,
  decreases self.decoder.reader.rest(), rank2(self.decoder.decoder.state)
)]
//// loopstart 0
proof_decl!{ let ghost at = self.decoder; }
proof!{ broadcast use qm::axiom_question_mark; h = choose|h: Head| #[trigger] arrived(me, at, head0(), h); lemma_hops(me, at, head0(), h); lemma_wrong(me, at, h); }
//// at self.decoder.decoder.current_frame_mut().take()
proof_decl!{ let ghost n = self.decoder; let ghost d = Some(Decoded::FrameMetadata(frame_data_type)); }
proof!{ assert(hopped(me, at, n, head0(), h, OutputBuffer::None, d)); assert(found(me, n, head0(), meta_of(frame_data_type), n.decoder.abs(), h)); }
//// at after:self.decoder.decoder.current_frame_mut().take()
proof!{
    let f = self.current_frame; let a = n.decoder.abs();
    assert(found(me, self.decoder, head0(), meta_of(frame_data_type), a, h)) by { assert(self.decoder.since(me) == n.since(me)); assert(self.decoder.reader.ahead() == n.reader.ahead()); }
    assert(self.decoder.decoder.abs().has =~= a.has);
    assert(a.cur == Some(pic_of(f)));
    assert(framed(me, self.decoder, f, frame_data_type));
}
//// fn DecodeOptions::read_info props=C01,C02,C04,C07,C16,C25
#[verus_spec(res => ensures
    res matches Ok(d) ==> d.wf() && !d.decoder.at_eof && /*C04,C07,C25*/ opened(self, d),
    /*C04,C07,C16,C25*/ res matches Err(e) ==> refused::<R>(self, e),
)]
//// rewrite Decoder::with_no_init(r, StreamingDecoder::with_options(&self), self).init() => { let me = Decoder::with_no_init(r, StreamingDecoder::with_options(&self), self); proof!{ lemma_start(self, me); } let res = me.init(); proof!{ if res is Ok { lemma_opened(self, me, res->Ok_0); } else { lemma_refused(self, me, res->Err_0); } } res }
//// fn Decoder::new props=C01,C04,C08,C09,C13,C14,C15,C25
#[verus_spec(res => ensures
    res matches Ok(d) ==> d.wf() && !d.decoder.at_eof && exists|o: DecodeOptions| #[trigger] opened(o, d) && (o.memory_limit matches MemoryLimit::Bytes(n) && n@ == 50_000_000) && o.color_output is Indexed && !o.check_frame_consistency && !o.skip_frame_decoding && !o.check_for_end_code && !o.allow_unknown_blocks,
)]
//// fn Decoder::read_next_frame props=C01,C02,C05,C06,C09,C12,C13,C14,C16,C25
//// rewrite &mut |out| self.decoder.decode_next_bytes(out) => &mut self.decoder
//// rewrite vec.try_reserve(usize::from => vec.vx_try_reserve_within(&self.pixel_converter.memory_limit, usize::from
#[verus_spec(r => requires old(self).wf()
  ensures final(self).wf(), final(self).decoder.moved(old(self).decoder), final(self).same_options(*old(self)),
    r matches Ok(Some(f)) ==> *f == final(self).current_frame,
    /*C05,C06,C12,C13,C25*/ r matches Ok(Some(f)) ==> frame_read(old(self).decoder, final(self).decoder, final(self).pixel_converter, final(self).current_frame_data_type, final(self).current_frame),
    /*C16,C25*/ r matches Ok(None) ==> final(self).decoder.at_eof && if old(self).decoder.at_eof { final(self).decoder == old(self).decoder } else { ended(old(self).decoder, final(self).decoder) },
    /*C16,C25*/ r is Ok ==> final(self).decoder.reader.faults() == old(self).decoder.reader.faults(),
    /*C16,C25*/ r matches Err(e) ==> final(self).decoder.blamed(old(self).decoder, e),
    /*C05,C06,C09,C12,C13,C14,C16,C17,C25*/ r matches Err(e) ==> wrong(old(self).decoder, final(self).decoder, e) || no_colours(old(self).decoder, final(self).decoder, final(self).pixel_converter, final(self).current_frame)
        || frame_refused(old(self).decoder, final(self).decoder, old(self).pixel_converter, final(self).current_frame_data_type, e),
)]
//// start
proof_decl!{ let ghost all = *self; }
proof!{ broadcast use qm::axiom_question_mark; }
//// at match self.current_frame_data_type {
proof_decl!{ let ghost mid = *self; let ghost md = mid.decoder; let ghost f0 = self.current_frame; }
proof!{ md.lemma_refl(); lemma_frame_bad(all.decoder, md, f0, self.pixel_converter, all.pixel_converter, self.current_frame_data_type); }
//// at if self.pixel_converter.check_buffer_size(
proof!{ let (w, h) = (self.current_frame.width as int, self.current_frame.height as int); assert(0 <= w * h <= 65535 * 65535) by (nonlinear_arith) requires 0 <= w <= 65535, 0 <= h <= 65535; lemma_pixel_bytes(self.pixel_converter.color_output, self.current_frame.width, self.current_frame.height); assert(0 <= w * h / 4 <= w * h); assert(w * h <= pixel_bytes(self.pixel_converter.color_output, self.current_frame.width, self.current_frame.height)); }
//// at Ok(Some(&self.current_frame))
proof!{
    lemma_moved(all.decoder, md, self.decoder);
    if mid.current_frame_data_type is Pixels { lemma_pixels(md, self.decoder); }
    let f = self.current_frame; let dt = self.current_frame_data_type;
    if dt is Pixels { assert(self.decoder.made().skip(0) =~= self.decoder.made()); }
    assert(frame_got(all.decoder, md, f0, self.decoder, self.pixel_converter, dt, f));
}
//// fn Decoder::copy_lzw_into_buffer props=C01,C02,C09,C13,C16,C25
#[verifier::loop_isolation(false)]
#[verus_spec(r => requires old(self).wf(), old(self).decoder.decoder.state is CopySubBlock
  ensures final(self).wf(), final(self).decoder.moved(old(self).decoder), *final(self) == (Decoder { decoder: final(self).decoder, ..*old(self) }), final(self).decoder.decoder.cfg() == old(self).decoder.decoder.cfg(),
    /*C12,C13,C25*/ r is Ok ==> copying(old(self).decoder, final(self).decoder, Ev::DataEnd) && (!old(self).decoder.at_eof ==> !final(self).decoder.at_eof),
    /*C13,C25*/ r is Ok ==> final(self).decoder.decoder.state is BlockEnd && final(buf)@ == old(buf)@ + seq![min_code_size] + payload(old(self).decoder, final(self).decoder),
    /*C09*/ r is Ok ==> within(old(self).decoder.decoder.memory_limit, final(buf)@.len()) || final(buf)@.len() == old(buf)@.len() + 1,
    /*C16,C25*/ r is Ok ==> final(self).decoder.reader.faults() == old(self).decoder.reader.faults(),
    /*C16,C25*/ r matches Err(e) ==> final(self).decoder.blamed(old(self).decoder, e),
    /*C09,C13,C16,C25*/ r matches Err(e) ==> !old(self).decoder.at_eof ==> too_much(old(self).decoder, final(self).decoder, old(buf)@.len() as int + 1, e),
)]
//// start
proof_decl!{ let ghost all = *self; let ghost me = self.decoder; let ghost b0 = buf@; }
proof!{ broadcast use qm::axiom_question_mark; }
//// loop 0 loop
#[verus_spec(
  invariant self.wf(), self.decoder.moved(me), *self == (Decoder { decoder: self.decoder, ..all }), self.decoder.decoder.cfg() == me.decoder.cfg(), self.decoder.reader.faults() == me.reader.faults(), self.decoder.decoder.state is CopySubBlock, !me.at_eof ==> !self.decoder.at_eof,
    copying(me, self.decoder, Ev::Nothing), buf@ == b0 + seq![min_code_size] + payload(me, self.decoder),
    within(me.decoder.memory_limit, buf@.len()) || buf@.len() == b0.len() + 1,
  decreases self.decoder.reader.rest()
)]
//// loopstart 0
proof_decl!{ let ghost at = self.decoder; }
proof!{ broadcast use qm::axiom_question_mark; assert forall|n: ReadDecoder<R>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, d: Option<Decoded>| #[trigger] next_ok(at, n, ob, nb, d) && n.moved(at) implies copied_on(me, at, n, ob, nb, d) by { lemma_copied(me, at, n, ob, nb, d); }
    assert forall|n: ReadDecoder<R>, ob: OutputBuffer<'_>, e: DecodingError| #[trigger] next_err(at, n, ob, e) && ob is Vec && ob.cur() == buf@ && n.moved(at) implies too_much(me, n, b0.len() as int + 1, e) by { lemma_too_much(me, at, n, ob, b0.len() as int + 1, e); } }
//// fn Decoder::take_current_frame props=C01,C17
#[verus_spec(r => ensures r == old(self).current_frame, *final(self) == (Decoder { current_frame: final(self).current_frame, ..*old(self) }))]
//// fn Decoder::read_into_buffer props=C01,C02,C10,C12,C14,C16,C25
//// rewrite &mut |out| self.decoder.decode_next_bytes(out) => &mut self.decoder
#[verus_spec(r => requires old(self).wf()
  ensures final(self).wf(), final(self).decoder.moved(old(self).decoder), final(self).same_options(*old(self)), final(self).current_frame == old(self).current_frame, final(buf)@.len() == old(buf)@.len(),
    /*C12,C25*/ r is Ok ==> image_read(old(self).pixel_converter, old(self).current_frame, old(self).decoder, final(self).decoder, old(buf)@, final(buf)@) && reached(old(self).decoder, final(self).decoder, r, true),
    /*C16,C25*/ r is Ok ==> final(self).decoder.reader.faults() == old(self).decoder.reader.faults(),
    /*C16,C25*/ r matches Err(e) ==> final(self).decoder.blamed(old(self).decoder, e),
    /*C12,C14,C25*/ r matches Err(e) ==> old(self).decoder.live() && old(self).current_frame.width > 0 && old(self).current_frame.height > 0 ==> image_err(old(self).pixel_converter, old(self).current_frame, old(self).decoder, final(self).decoder, old(buf)@.len() as int, e),
)]
//// start
proof!{ let m = self.decoder; m.lemma_refl(); }
//// fn Decoder::fill_buffer props=C01,C02,C11,C12,C14,C16,C25
//// rewrite &mut |out| self.decoder.decode_next_bytes(out) => &mut self.decoder
#[verus_spec(r => requires old(self).wf()
  ensures final(self).wf(), final(self).decoder.moved(old(self).decoder), final(self).same_options(*old(self)), final(self).current_frame == old(self).current_frame, final(buf)@.len() == old(buf)@.len(),
    /*C12,C25*/ r is Ok ==> reached(old(self).decoder, final(self).decoder, r, old(buf)@.len() > 0),
    /*C11,C12,C25*/ r matches Ok(b) ==> if old(buf)@.len() > 0 { filled(old(self).pixel_converter, old(self).current_frame, old(self).decoder, final(self).decoder, old(buf)@, final(buf)@, b) } else { !b },
    /*C16,C25*/ r is Ok ==> final(self).decoder.reader.faults() == old(self).decoder.reader.faults(),
    /*C16,C25*/ r matches Err(e) ==> final(self).decoder.blamed(old(self).decoder, e),
    /*C11,C12,C14,C25*/ r matches Err(e) ==> old(self).decoder.live() && old(buf)@.len() > 0 ==> old(self).pixel_converter.color_output is RGBA && old(buf)@.len() % 4 != 0 || went_wrong(old(self).decoder, final(self).decoder, e),
)]
//// start
proof!{ let m = self.decoder; m.lemma_refl(); }
//// fn Decoder::buffer_size props=C01,C09,C12,C25
#[verus_spec(r => ensures r == pixel_bytes(self.pixel_converter.color_output, self.current_frame.width, self.current_frame.height))]
//// start
proof!{ lemma_pixel_bytes(self.pixel_converter.color_output, self.current_frame.width, self.current_frame.height); }
//// fn Decoder::line_length props=C01,C10,C12,C25
#[verus_spec(r => ensures r == line_bytes(self.pixel_converter.color_output, self.current_frame.width))]
//// fn Decoder::palette props=C01,C05,C25
#[verus_spec(r => ensures
    /*C05,C25*/ r is Ok <==> self.current_frame.palette is Some || self.pixel_converter.global_palette is Some,
    /*C05,C25*/ r matches Ok(p) ==> p@ == palette_of(self.current_frame, self.pixel_converter.global_palette))]
//// start
proof!{ broadcast use {qm::axiom_question_mark, axiom_deref_vec}; }
//// fn Decoder::width props=C01,C04,C25
#[verus_spec(r => ensures r == self.decoder.decoder.width)]
//// fn Decoder::height props=C01,C04,C25
#[verus_spec(r => ensures r == self.decoder.decoder.height)]
//// fn Decoder::bg_color props=C01,C04,C25
//// rewrite self.bg_color.map(|v| v as usize) => (match self.bg_color { Some(v) => Some(v as usize), None => None })
#[verus_spec(r => ensures r == (match self.bg_color { Some(c) => Some(c as usize), None => None }))]
//// fn Decoder::repeat props=C01,C07,C25
#[verus_spec(r => ensures r == self.repeat)]
//// fn Decoder::global_palette props=C01,C04,C05,C25
#[verus_spec(r => ensures r is Some <==> self.pixel_converter.global_palette is Some, r matches Some(p) ==> p@ == self.pixel_converter.global_palette->0@)]
//// type DecoderIter
/*pub*/
//// copybody <Decoder as IntoIterator>::into_iter props=C01,C17 => pub fn into_iter__c17(self) -> DecoderIter<R>
#[verus_verify]
impl<R: Read> Decoder<R> {
#[verus_spec(r => ensures /*C17*/ r.inner == self && !r.ended)]
@BODY@
}
//// copybody <DecoderIter as Iterator>::next props=C01,C17 => pub fn next__c17(&mut self) -> Option<Result<Frame<'static>, DecodingError>>
#[verus_verify]
impl<R: Read> DecoderIter<R> {
#[verus_spec(r => requires old(self).inner.wf()
  ensures final(self).inner.wf(), final(self).inner.same_options(old(self).inner), final(self).inner.decoder.moved(old(self).inner.decoder),
    /*C17*/ old(self).ended ==> r is None && *final(self) == *old(self),
    /*C17*/ r matches Some(Ok(f)) ==> frame_read(old(self).inner.decoder, final(self).inner.decoder, final(self).inner.pixel_converter, final(self).inner.current_frame_data_type, f),
    /*C17*/ r matches Some(Err(e)) ==> final(self).inner.decoder.blamed(old(self).inner.decoder, e),
    /*C17*/ r matches Some(Err(e)) ==> wrong(old(self).inner.decoder, final(self).inner.decoder, e) || no_colours(old(self).inner.decoder, final(self).inner.decoder, final(self).inner.pixel_converter, final(self).inner.current_frame)
        || frame_refused(old(self).inner.decoder, final(self).inner.decoder, old(self).inner.pixel_converter, final(self).inner.current_frame_data_type, e),
    /*C17*/ r is None && !old(self).ended ==> final(self).inner.decoder.at_eof && if old(self).inner.decoder.at_eof { final(self).inner.decoder == old(self).inner.decoder } else { ended(old(self).inner.decoder, final(self).inner.decoder) },
    /*C17*/ final(self).ended <==> !(r matches Some(Ok(_))),
    /*C17*/ !(r matches Some(Err(_))) ==> final(self).inner.decoder.reader.faults() == old(self).inner.decoder.reader.faults(),
)]
@BODY@
}
//// tail
use crate::reader::converter::{image_read, image_of, image_err, went_wrong, reached, filled, lemma_pixel_bytes, line_bytes, palette_of, axiom_deref_vec, same_frame_but, DataSource};
verus!{
impl<R: Read> Decoder<R> {
    pub open spec fn wf(self) -> bool { self.decoder.wf() && self.decoder.decoder.header_end_reached }
    /// everything but the position, the current frame and the row buffer is as in `o`
    pub open spec fn same_options(self, o: Self) -> bool {
        self.decoder.decoder.cfg() == o.decoder.decoder.cfg() && self.pixel_converter.same_but_buffer(o.pixel_converter) && self.bg_color == o.bg_color && self.repeat == o.repeat
    }
}
pub open spec fn head0() -> Head { Head { bg: None, pal: None, rep: Repeat::Finite(0) } }
/// from `o` on, the bytes up to `m` lead to the state of `m`, whatever follows
pub open spec fn arrived<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, h0: Head, h: Head) -> bool {
    forall|t: Seq<u8>| #[trigger] m.reader.ahead().is_prefix_of(t) ==> scan(o.decoder.cfg(), o.decoder.abs(), m.since(o) + t, h0) == later(m.since(o).len() as int, scan(m.decoder.cfg(), m.decoder.abs(), t, h))
}
/// from `o` on, the next thing to stop at is `e`, behind which `n` is, in state `a`
pub open spec fn found<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, h0: Head, e: Ev, a: Abs, h: Head) -> bool {
    forall|t: Seq<u8>| #[trigger] n.reader.ahead().is_prefix_of(t) ==> scan(o.decoder.cfg(), o.decoder.abs(), n.since(o) + t, h0) == (Scan { at: n.since(o).len() as int, ev: e, a, h, bad: false })
}
pub open spec fn event(e: Option<Decoded>) -> Ev { match e { Some(d) => ev_of(d), None => Ev::BlockStart(crate::common::Block::Trailer) } }
/// what one event tells after `o` led to `m`
pub open spec fn hopped<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, n: ReadDecoder<R>, h0: Head, h: Head, ob: OutputBuffer<'_>, d: Option<Decoded>) -> bool {
    let e = event(d); let a = n.decoder.abs();
    &&& n.moved(o) && !(e is Nothing) && (!(ob is Slice) && (ob is Vec ==> m.decoder.state is CopySubBlock) ==> stops(e) || n.reader.rest() < m.reader.rest() || (n.reader.rest() == m.reader.rest() && rank2(n.decoder.state) < rank2(m.decoder.state)))
    &&& if stops(e) { found(o, n, h0, e, a, hear(h, e)) } else { arrived(o, n, h0, hear(h, e)) }
    &&& ob is None && a.st is DecodeSubBlock ==> e is Meta
    &&& (m.decoder.header_end_reached ==> n.decoder.header_end_reached && !(e is HeaderEnd)) && (e is HeaderEnd ==> n.decoder.header_end_reached)
    &&& early(m.decoder.abs()) ==> e is HeaderEnd || early(a) && !(e is Meta)
    &&& e is Meta ==> a.cur is Some && if n.decoder.skip_frame_decoding { a.st is CopySubBlock && e->Meta_0 is Some } else { a.st is DecodeSubBlock && e->Meta_0 is None && n.decoder.lzw_reader.decoder is Some && lz_fresh(n.decoder.lzw_reader.lz(), a.min) && lz_ok(n.decoder.lzw_reader.lz()) }
}
/// reading on from `o` went wrong with `e`: the reader failed or ended, there is no memory left, or what was read up to `n` is no part of a valid stream
pub open spec fn wrong<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, e: DecodingError) -> bool {
    let x = n.since(o) + n.reader.ahead();
    n.reader.faults() != o.reader.faults() || oom(e) || scan(o.decoder.cfg(), o.decoder.abs(), x, head0()).bad || o.decoder.state is DecodeSubBlock && lzw_spoilt(o.decoder.lzw_reader, brun(blk_of(o.decoder.state), x), true)
}
/// the frame `f`, which is next behind `o`, has no palette
pub open spec fn no_colours<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, p: PixelConverter, f: Frame<'_>) -> bool { f.palette is None && p.global_palette is None && exists|t: FrameDataType| #[trigger] framed(o, n, f, t) }
pub proof fn lemma_wrong<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, h: Head)
    requires arrived(o, m, head0(), h), m.wf(), m.moved(o), m.reader.faults() == o.reader.faults(), m.decoder.state is DecodeSubBlock ==> m == o,
    ensures forall|n: ReadDecoder<R>, e: DecodingError| #[trigger] next_err(m, n, OutputBuffer::None, e) && n.moved(m) ==> wrong(o, n, e) && n.moved(o)
{
    assert forall|n: ReadDecoder<R>, e: DecodingError| #[trigger] next_err(m, n, OutputBuffer::None, e) && n.moved(m) implies wrong(o, n, e) && n.moved(o) by {
        lemma_moved(o, m, n);
        if n.reader.faults() == o.reader.faults() && !oom(e) && !data_state(m.decoder.state) {
            let (cfg, a) = (m.decoder.cfg(), m.decoder.abs()); let x = n.since(m) + n.reader.ahead();
            lemma_since(o, m, n); assert(n.since(o) + n.reader.ahead() =~= m.since(o) + x);
            lemma_scan_upd(cfg, a, x, Seq::empty(), h); assert(x + Seq::<u8>::empty() =~= x);
        }
    }
}
pub open spec fn hops<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, h0: Head, h: Head) -> bool {
    forall|n: ReadDecoder<R>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, d: Option<Decoded>| #[trigger] next_ok(m, n, ob, nb, d) && n.wf() && n.moved(m) && n.decoder.cfg() == m.decoder.cfg() ==> hopped(o, m, n, h0, h, ob, d)
}
pub proof fn lemma_hops<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, h0: Head, h: Head)
    requires arrived(o, m, h0, h), m.wf(), m.moved(o),
    ensures hops(o, m, h0, h)
{
    assert forall|n: ReadDecoder<R>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, d: Option<Decoded>| #[trigger] next_ok(m, n, ob, nb, d) && n.wf() && n.moved(m) && n.decoder.cfg() == m.decoder.cfg() implies hopped(o, m, n, h0, h, ob, d) by { lemma_hop(o, m, n, h0, h, ob, nb, d); }
}
#[verifier::spinoff_prover]
proof fn lemma_hop<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, n: ReadDecoder<R>, h0: Head, h: Head, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, d: Option<Decoded>)
    requires arrived(o, m, h0, h), m.wf(), n.wf(), m.moved(o), n.moved(m), n.decoder.cfg() == m.decoder.cfg(), next_ok(m, n, ob, nb, d),
    ensures hopped(o, m, n, h0, h, ob, d)
{
    let e = event(d); let (cfg, a) = (m.decoder.cfg(), m.decoder.abs()); let y = n.since(m); let x = y + n.reader.ahead();
    lemma_moved(o, m, n); lemma_since(o, m, n);
    if !data_state(m.decoder.state) {
        lemma_upd_rank(cfg, a, x); lemma_meta(cfg, a, x); lemma_enter(cfg, a, x); if early(a) { lemma_early(cfg, a, x); }
        let a1 = upd(cfg, a, x)->Step_2; assert(a1.has =~= n.decoder.abs().has); assert(a1 == n.decoder.abs());
    } else if y.len() == 0 { assert(brun(blk_of(m.decoder.state), y) == blk_of(m.decoder.state)); }
    assert forall|t: Seq<u8>| #[trigger] n.reader.ahead().is_prefix_of(t) implies
        scan(o.decoder.cfg(), o.decoder.abs(), n.since(o) + t, h0) == if stops(e) { Scan { at: n.since(o).len() as int, ev: e, a: n.decoder.abs(), h: hear(h, e), bad: false } } else { later(n.since(o).len() as int, scan(cfg, n.decoder.abs(), t, hear(h, e))) } by
    {
        assert(m.reader.ahead().is_prefix_of(y + t));
        assert(n.since(o) + t =~= m.since(o) + (y + t));
        if data_state(m.decoder.state) {
            let b = brun(blk_of(m.decoder.state), y);
            lemma_scan_data(cfg, a, y, t, h);
            assert(n.decoder.abs() == abs_of(a, b)) by { assert(n.decoder.abs().has =~= a.has); }
            assert(hear(h, e) == h);
        } else {
            let u = t.skip(n.reader.ahead().len() as int);
            assert(t =~= n.reader.ahead() + u); assert(y + t =~= x + u);
            lemma_scan_upd(cfg, a, x, u, h);
            assert((x + u).skip(y.len() as int) =~= t);
        }
    }
}
pub proof fn lemma_arrived0<R: Read>(o: ReadDecoder<R>, h: Head)
    ensures arrived(o, o, h, h), o.moved(o)
{
    assert forall|t: Seq<u8>| #[trigger] o.reader.ahead().is_prefix_of(t) implies scan(o.decoder.cfg(), o.decoder.abs(), o.since(o) + t, h) == later(o.since(o).len() as int, scan(o.decoder.cfg(), o.decoder.abs(), t, h)) by { assert(o.since(o) + t =~= t); }
}
pub open spec fn said(h: Head, bg: Option<u8>, pal: Option<Vec<u8>>, rep: Repeat) -> bool { bg == h.bg && rep == h.rep && (pal is Some) == (h.pal is Some) && (pal matches Some(p) ==> p@ == h.pal->0) }
pub open spec fn heard<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, bg: Option<u8>, pal: Option<Vec<u8>>, rep: Repeat) -> bool { exists|h: Head| #[trigger] arrived(o, n, head0(), h) && said(h, bg, pal, rep) }
pub open spec fn header<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, bg: Option<u8>, pal: Option<Vec<u8>>, rep: Repeat) -> bool { exists|h: Head| #[trigger] found(o, n, head0(), Ev::HeaderEnd, n.decoder.abs(), h) && said(h, bg, pal, rep) }
/// the header of the stream, as the decoder reports it
pub open spec fn headed<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, bg: Option<u8>, pal: Option<Vec<u8>>, rep: Repeat) -> bool {
    exists|h: Head| {
        &&& #[trigger] found(o, n, head0(), Ev::HeaderEnd, n.decoder.abs(), h)
        &&& rep == h.rep && (pal is Some) == (h.pal is Some) && (pal matches Some(p) ==> p@ == h.pal->0)
        &&& bg == match h.bg { Some(c) => if h.pal is Some && c as int >= h.pal->0.len() / 3 { None } else { Some(c) }, None => None }
    }
}
pub open spec fn meta_of(t: FrameDataType) -> Ev { Ev::Meta(match t { FrameDataType::Pixels => None, FrameDataType::Lzw { min_code_size } => Some(min_code_size) }) }
/// reading from `o` on, `n` is behind the descriptor of the next frame, which is `f`
pub open spec fn framed<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, f: Frame<'_>, t: FrameDataType) -> bool {
    exists|a: Abs, h: Head| {
        &&& #[trigger] found(o, n, head0(), meta_of(t), a, h)
        &&& a.cur == Some(pic_of(f)) && f.buffer is Borrowed && same(n.decoder.abs(), Abs { cur: Some(Pic { pal: None, ..pic_of(f) }), ..a })
        &&& if t is Pixels { !n.decoder.skip_frame_decoding && a.st is DecodeSubBlock && n.decoder.lzw_reader.decoder is Some && lz_fresh(n.decoder.lzw_reader.lz(), a.min) && lz_ok(n.decoder.lzw_reader.lz()) } else { a.st is CopySubBlock }
    }
}
/// reading from `o` on, there is no frame before the trailer, behind which `n` is
pub open spec fn ended<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>) -> bool { exists|h: Head| #[trigger] found(o, n, head0(), Ev::BlockStart(crate::common::Block::Trailer), n.decoder.abs(), h) }

/// `d` has read the header of a stream with options `o`
pub open spec fn opened<R: Read>(o: DecodeOptions, d: Decoder<R>) -> bool {
    &&& d.decoder.decoder.cfg() == (Cfg { skip: o.skip_frame_decoding, frames: o.check_frame_consistency, unknown: o.allow_unknown_blocks, limit: o.memory_limit, end: o.check_for_end_code })
    &&& d.pixel_converter.color_output == o.color_output && d.pixel_converter.memory_limit == o.memory_limit && d.decoder.reader.faults().len() == 0
    &&& header_of(d.decoder.decoder.cfg(), d.decoder.reader.seen(), d.decoder.reader.ahead(), d.decoder.decoder.abs(), d.bg_color, d.pixel_converter.global_palette, d.repeat)
}
/// no header was read: the reader failed or ended, there is no memory left, the stream does not start like a valid one, or it has no frame
pub open spec fn refused<R: Read>(o: DecodeOptions, e: DecodingError) -> bool { exists|n: ReadDecoder<R>| #[trigger] refused_at(o, n, e) }
pub open spec fn refused_at<R: Read>(o: DecodeOptions, n: ReadDecoder<R>, e: DecodingError) -> bool {
    let cfg = n.decoder.cfg(); let z = scan(cfg, abs0(), n.reader.seen() + n.reader.ahead(), head0());
    &&& cfg == (Cfg { skip: o.skip_frame_decoding, frames: o.check_frame_consistency, unknown: o.allow_unknown_blocks, limit: o.memory_limit, end: o.check_for_end_code })
    &&& n.reader.faults().len() > 0 || oom(e) || z.bad || z.ev == Ev::BlockStart(crate::common::Block::Trailer)
}
proof fn lemma_refused<R: Read>(o: DecodeOptions, me: Decoder<R>, e: DecodingError)
    requires me.decoder.decoder.abs() == abs0(), me.decoder.reader.seen().len() == 0, me.decoder.reader.faults().len() == 0, me.decoder.decoder.state is Magic,
        me.decoder.decoder.cfg() == (Cfg { skip: o.skip_frame_decoding, frames: o.check_frame_consistency, unknown: o.allow_unknown_blocks, limit: o.memory_limit, end: o.check_for_end_code }),
        exists|n: ReadDecoder<R>| #[trigger] n.moved(me.decoder) && n.decoder.cfg() == me.decoder.decoder.cfg() && (wrong(me.decoder, n, e) || ended(me.decoder, n)),
    ensures refused::<R>(o, e)
{
    let n = choose|n: ReadDecoder<R>| #[trigger] n.moved(me.decoder) && n.decoder.cfg() == me.decoder.decoder.cfg() && (wrong(me.decoder, n, e) || ended(me.decoder, n));
    assert(n.since(me.decoder) =~= n.reader.seen()); if n.reader.faults().len() == 0 { assert(n.reader.faults() =~= me.decoder.reader.faults()); }
    if ended(me.decoder, n) { let h = choose|h: Head| #[trigger] found(me.decoder, n, head0(), Ev::BlockStart(crate::common::Block::Trailer), n.decoder.abs(), h); assert(n.reader.ahead().is_prefix_of(n.reader.ahead())); }
    assert(refused_at(o, n, e));
}
/// the bytes `s` are the header of a stream, whatever follows after `ahead`
pub open spec fn header_of(cfg: Cfg, s: Seq<u8>, ahead: Seq<u8>, a: Abs, bg: Option<u8>, pal: Option<Vec<u8>>, rep: Repeat) -> bool {
    exists|h: Head| {
        &&& #[trigger] header_is(cfg, s, ahead, a, h)
        &&& rep == h.rep && (pal is Some) == (h.pal is Some) && (pal matches Some(p) ==> p@ == h.pal->0)
        &&& bg == match h.bg { Some(c) => if h.pal is Some && c as int >= h.pal->0.len() / 3 { None } else { Some(c) }, None => None }
    }
}
pub open spec fn header_is(cfg: Cfg, s: Seq<u8>, ahead: Seq<u8>, a: Abs, h: Head) -> bool {
    forall|t: Seq<u8>| #[trigger] ahead.is_prefix_of(t) ==> scan(cfg, abs0(), s + t, head0()) == (Scan { at: s.len() as int, ev: Ev::HeaderEnd, a, h, bad: false })
}
proof fn lemma_start<R: Read>(o: DecodeOptions, d: Decoder<R>)
    requires same(d.decoder.decoder.abs(), abs0()),
    ensures early(d.decoder.decoder.abs()), d.decoder.decoder.abs() == abs0()
{ assert(d.decoder.decoder.abs().has =~= abs0().has); assert(d.decoder.decoder.abs().gpal =~= abs0().gpal); assert(d.decoder.decoder.abs().ext =~= abs0().ext); }
proof fn lemma_opened<R: Read>(o: DecodeOptions, me: Decoder<R>, d: Decoder<R>)
    requires me.decoder.decoder.abs() == abs0(), d.decoder.moved(me.decoder), me.decoder.reader.seen().len() == 0, d.decoder.decoder.cfg() == me.decoder.decoder.cfg(),
        headed(me.decoder, d.decoder, d.bg_color, d.pixel_converter.global_palette, d.repeat),
    ensures header_of(d.decoder.decoder.cfg(), d.decoder.reader.seen(), d.decoder.reader.ahead(), d.decoder.decoder.abs(), d.bg_color, d.pixel_converter.global_palette, d.repeat)
{
    let h = choose|h: Head| {
        &&& #[trigger] found(me.decoder, d.decoder, head0(), Ev::HeaderEnd, d.decoder.decoder.abs(), h)
        &&& d.repeat == h.rep && (d.pixel_converter.global_palette is Some) == (h.pal is Some) && (d.pixel_converter.global_palette matches Some(p) ==> p@ == h.pal->0)
        &&& d.bg_color == match h.bg { Some(c) => if h.pal is Some && c as int >= h.pal->0.len() / 3 { None } else { Some(c) }, None => None }
    };
    assert(d.decoder.since(me.decoder) =~= d.decoder.reader.seen());
    assert(header_is(d.decoder.decoder.cfg(), d.decoder.reader.seen(), d.decoder.reader.ahead(), d.decoder.decoder.abs(), h));
}
/// image data of a frame between `m` and `n`
pub open spec fn payload<R: Read>(m: ReadDecoder<R>, n: ReadDecoder<R>) -> Seq<u8> { brun(blk_of(m.decoder.state), n.since(m)).out }
/// from the start `m` of the image data of a frame to `n`: what was delivered are the first pixels it stands for
pub open spec fn pixels_of<R: Read>(m: ReadDecoder<R>, n: ReadDecoder<R>) -> bool {
    let all = lzw_out(m.decoder.lzw_reader.min_code_size, payload(m, n));
    m.made().len() == 0 && n.made().is_prefix_of(all) && (n.decoder.state is BlockEnd ==> n.made() == all)
}
/// at the start of the image data of a frame
pub open spec fn at_data<R: Read>(m: ReadDecoder<R>) -> bool {
    m.decoder.state is DecodeSubBlock && m.decoder.lzw_reader.decoder is Some && lz_fresh(m.decoder.lzw_reader.lz(), m.decoder.lzw_reader.min_code_size) && lz_ok(m.decoder.lzw_reader.lz())
}
pub proof fn lemma_pixels<R: Read>(m: ReadDecoder<R>, n: ReadDecoder<R>)
    requires at_data(m), n.through(m),
    ensures pixels_of(m, n)
{
    let q = payload(m, n); let (a, z) = (m.decoder.lzw_reader.lz(), n.decoder.lzw_reader.lz());
    assert(a.fed + q =~= q);
    assert(z.fed + q.skip(z.fed.len() as int) =~= q);
    axiom_lzw_prefix(z.size, z.fed, q.skip(z.fed.len() as int));
}
/// reading a frame led from `o` over its descriptor at `m` to `n`
pub open spec fn frame_got<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, f0: Frame<'static>, n: ReadDecoder<R>, p: PixelConverter, dt: FrameDataType, f: Frame<'static>) -> bool {
    &&& framed(o, m, f0, dt) && m.moved(o) && !m.at_eof && n.moved(m) && !n.at_eof && same_frame_but(f0, f) && (f0.palette is Some || p.global_palette is Some)
    &&& match dt {
        FrameDataType::Pixels => !f.interlaced && at_data(m) && took(m, n) && pixels_of(m, n) && image_of(p, f0, n.made(), zeros(pixel_bytes(p.color_output, f.width, f.height)), cow_bytes(f.buffer)),
        FrameDataType::Lzw { min_code_size } => f.interlaced == f0.interlaced && n.decoder.state is BlockEnd && copying(m, n, Ev::DataEnd) && cow_bytes(f.buffer) == seq![min_code_size] + payload(m, n)
            && (within(n.decoder.memory_limit, cow_bytes(f.buffer).len()) || payload(m, n).len() == 0),
    }
}
/// reading a frame led from `o` to `n` and gave `f`
pub open spec fn frame_read<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, p: PixelConverter, dt: FrameDataType, f: Frame<'static>) -> bool { exists|m: ReadDecoder<R>, f0: Frame<'static>| #[trigger] frame_got(o, m, f0, n, p, dt, f) }
/// the frame `f0`, whose image data starts at `m`, was not read for `e`, which came up at `n`
pub open spec fn frame_bad<R: Read>(m: ReadDecoder<R>, f0: Frame<'static>, n: ReadDecoder<R>, p: PixelConverter, dt: FrameDataType, e: DecodingError) -> bool {
    let q = brun(blk_of(m.decoder.state), n.since(m) + n.reader.ahead());
    n.reader.faults() != m.reader.faults() || oom(e) || match dt {
        FrameDataType::Pixels => f0.width == 0 || f0.height == 0 || !within(p.memory_limit, pixel_bytes(p.color_output, f0.width, f0.height)) || lzw_spoilt(m.decoder.lzw_reader, q, false)
            || n.decoder.state is BlockEnd && took(m, n) && lzw_out(m.decoder.lzw_reader.min_code_size, payload(m, n)).len() < f0.width as int * f0.height as int,
        FrameDataType::Lzw { min_code_size } => !within(m.decoder.memory_limit, 1 + q.out.len()),
    }
}
pub open spec fn frame_refused_at<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, f0: Frame<'static>, n: ReadDecoder<R>, p: PixelConverter, dt: FrameDataType, e: DecodingError) -> bool {
    framed(o, m, f0, dt) && m.moved(o) && n.moved(m) && frame_bad(m, f0, n, p, dt, e)
}
pub open spec fn frame_refused<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, p: PixelConverter, dt: FrameDataType, e: DecodingError) -> bool { exists|m: ReadDecoder<R>, f0: Frame<'static>| #[trigger] frame_refused_at(o, m, f0, n, p, dt, e) }
proof fn lemma_frame_bad<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, f0: Frame<'static>, p: PixelConverter, p0: PixelConverter, dt: FrameDataType)
    requires framed(o, m, f0, dt), m.wf(), m.moved(o), p.memory_limit == p0.memory_limit, p.color_output == p0.color_output,
    ensures
        dt is Pixels ==> forall|n: ReadDecoder<R>, e: DecodingError| #![trigger n.moved(m), frame_refused(o, n, p0, dt, e)] n.moved(m) && (f0.width > 0 && f0.height > 0 ==> !within(p.memory_limit, pixel_bytes(p.color_output, f0.width, f0.height)) || image_err(p, f0, m, n, pixel_bytes(p.color_output, f0.width, f0.height) as int, e)) ==> frame_refused(o, n, p0, dt, e),
        dt is Lzw ==> forall|n: ReadDecoder<R>, e: DecodingError| n.moved(m) && #[trigger] too_much(m, n, 1, e) ==> frame_refused(o, n, p0, dt, e)
{
    if dt is Pixels {
        m.lemma_refl();
        assert forall|n: ReadDecoder<R>, e: DecodingError| #![trigger n.moved(m), frame_refused(o, n, p0, dt, e)] n.moved(m) && (f0.width > 0 && f0.height > 0 ==> !within(p.memory_limit, pixel_bytes(p.color_output, f0.width, f0.height)) || image_err(p, f0, m, n, pixel_bytes(p.color_output, f0.width, f0.height) as int, e)) implies frame_refused(o, n, p0, dt, e) by {
            assert(m.through(m) && m.tried(m));
            if n.through(m) { lemma_pixels(m, n); }
            assert(frame_bad(m, f0, n, p0, dt, e));
            assert(frame_refused_at(o, m, f0, n, p0, dt, e));
        }
    } else {
        assert forall|n: ReadDecoder<R>, e: DecodingError| n.moved(m) && #[trigger] too_much(m, n, 1, e) implies frame_refused(o, n, p0, dt, e) by { assert(frame_refused_at(o, m, f0, n, p0, dt, e)); }
    }
}
/// raw image data read from `o` to `n`
pub open spec fn copying<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, ev: Ev) -> bool {
    let b = brun(blk_of(o.decoder.state), n.since(o));
    b.left <= 255 && same(abs_of(o.decoder.abs(), b), n.decoder.abs()) && (b.end ==> b.left == 0)
}
pub open spec fn copied_on<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, n: ReadDecoder<R>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, d: Option<Decoded>) -> bool {
    ob is Vec ==> copying(o, n, event(d)) && if event(d) is Copied { n.decoder.state is CopySubBlock && nb.cur() == ob.cur() + payload(m, n) && payload(o, n) == payload(o, m) + payload(m, n) && n.reader.rest() < m.reader.rest() && within(o.decoder.memory_limit, nb.cur().len()) }
        else { event(d) is DataEnd && n.decoder.state is BlockEnd && nb.cur() == ob.cur() && payload(o, n) == payload(o, m) }
}
/// copying the image data, together with the `k` bytes before it, takes more memory than allowed
pub open spec fn too_much<R: Read>(o: ReadDecoder<R>, n: ReadDecoder<R>, k: int, e: DecodingError) -> bool {
    n.reader.faults() != o.reader.faults() || oom(e) || !within(o.decoder.memory_limit, (k + brun(blk_of(o.decoder.state), n.since(o) + n.reader.ahead()).out.len()) as nat)
}
proof fn lemma_too_much<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, n: ReadDecoder<R>, ob: OutputBuffer<'_>, k: int, e: DecodingError)
    requires o.decoder.state is CopySubBlock, m.decoder.state is CopySubBlock, copying(o, m, Ev::Nothing), next_err(m, n, ob, e), n.moved(m), m.moved(o), m.reader.faults() == o.reader.faults(), ob is Vec, ob.cur().len() == k + payload(o, m).len(),
    ensures too_much(o, n, k, e)
{
    let b0 = blk_of(o.decoder.state); let y = n.since(m) + n.reader.ahead(); let b1 = brun(b0, m.since(o));
    lemma_since(o, m, n); lemma_brun_add(b0, m.since(o), y); assert(m.since(o) + y =~= n.since(o) + n.reader.ahead());
    assert(!b1.end); assert(blk_of(m.decoder.state) == Blk { out: Seq::empty(), ..b1 });
    lemma_brun_out(b1, y);
}
proof fn lemma_copied<R: Read>(o: ReadDecoder<R>, m: ReadDecoder<R>, n: ReadDecoder<R>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, d: Option<Decoded>)
    requires o.decoder.state is CopySubBlock, m.decoder.state is CopySubBlock, copying(o, m, Ev::Nothing), next_ok(m, n, ob, nb, d), n.moved(m), m.moved(o), m.decoder.cfg() == o.decoder.cfg(), m.wf(),
    ensures copied_on(o, m, n, ob, nb, d)
{
    if ob is Vec {
        let b0 = blk_of(o.decoder.state); let b1 = brun(b0, m.since(o)); let b2 = brun(blk_of(m.decoder.state), n.since(m));
        lemma_since(o, m, n); lemma_brun_add(b0, m.since(o), n.since(m));
        assert(!b1.end); assert(blk_of(m.decoder.state) == Blk { out: Seq::empty(), ..b1 });
        lemma_brun_out(b1, n.since(m));
        assert(brun(b0, n.since(o)) == Blk { out: b1.out + b2.out, ..b2 });
        if n.since(m).len() == 0 { assert(brun(blk_of(m.decoder.state), n.since(m)) == blk_of(m.decoder.state)); }
        if !(event(d) is Copied) { assert(b1.out + b2.out =~= b1.out); }
    }
}
}
