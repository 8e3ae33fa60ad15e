//// file reader/mod.rs
//// type MemoryLimit
#[verus_verify(external_derive)]
//// fn MemoryLimit::check_size props=C01,C09
#[verus_spec(r => ensures r is Ok <==> within(*self, size as nat), r matches Err(e) ==> e is Format)]
//// tail
verus!{
/// the limit admits `n` bytes
pub open spec fn within(l: MemoryLimit, n: nat) -> bool { match l { MemoryLimit::Unlimited => true, MemoryLimit::Bytes(b) => n <= b@ } }
}
//// file reader/decoder.rs
//// const PLTE_CHANNELS
//// type DecodingFormatError
#[verus_verify(external_body)]
//// type DecodingError
vstd::prelude::verus!{
// `From` for the errors of the decoder
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for DecodingError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: io::Error) -> DecodingError { DecodingError::Io(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<io::ErrorKind> for DecodingError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: io::ErrorKind) -> DecodingError { DecodingError::Io(crate::vspec::err_of_kind(v)) }
}
impl vstd::std_specs::convert::FromSpecImpl<DecodingFormatError> for DecodingError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DecodingFormatError) -> DecodingError { DecodingError::Format(v) }
}
}
#[verus_verify]
//// type LzwReader
/*pub*/
//// type OutputBuffer
//// type FrameDataType
//// type Decoded
//// type State
/*pub*/
//// type StreamingDecoder
/*pub*/
//// type Version
//// type ExtensionData
/*pub*/
//// fn <DecodingError as From<io::Error>>::from props=C01,C16,C25
#[verus_spec(r => ensures r == DecodingError::Io(err))]
//// fn <DecodingError as From<io::ErrorKind>>::from props=C01,C16,C25
#[verus_spec(r => ensures r == DecodingError::Io(err_of_kind(err)))]
//// fn <DecodingError as From<DecodingFormatError>>::from props=C01,C16,C25
#[verus_spec(r => ensures r == DecodingError::Format(err))]
//// fn DecodingError::format props=C01
#[verus_verify(external_body)]
#[verus_spec(r => ensures r is Format)]
//// fn LzwReader::new props=C01,C12,C25
#[verus_spec(r => ensures r.decoder is None, r.min_code_size == 0, r.check_for_end_code == check_for_end_code, r.wf())]
//// fn LzwReader::check_code_size props=C01,C12,C13,C25
#[verus_spec(r => ensures r is Ok <==> 1 <= min_code_size <= 11, r matches Err(e) ==> e is Format)]
//// fn LzwReader::reset props=C01,C12,C13,C14,C25
#[verus_spec(r => requires old(self).wf()
  ensures final(self).wf(), final(self).check_for_end_code == old(self).check_for_end_code,
   r is Ok <==> 1 <= min_code_size <= 11, r matches Err(e) ==> e is Format,
   r is Ok ==> final(self).min_code_size == min_code_size && final(self).decoder is Some && lz_fresh(final(self).lz(), min_code_size))]
//// fn LzwReader::has_ended props=C01,C14
#[verus_spec(r => ensures r == (self.decoder is Some ==> self.lz().ended))]
//// fn LzwReader::decode_bytes props=C01,C02,C03,C12,C14,C25
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
#[verus_spec(r => requires old(self).wf()
  ensures final(self).wf(), final(self).check_for_end_code == old(self).check_for_end_code, final(self).min_code_size == old(self).min_code_size,
    (final(self).decoder is Some) == (old(self).decoder is Some), (*final(decode_buffer)).kept(*old(decode_buffer)),
    r matches Ok(p) ==> decoded(*old(self), *final(self), lzw_data@, *old(decode_buffer), *final(decode_buffer), p),
    /*C03,C12,C14,C25*/ r is Err && !(*old(decode_buffer) is Vec) && old(self).decoder is Some ==> !old(self).lz().ended,
    /*C03,C12,C14,C25*/ r matches Err(e) && !(*old(decode_buffer) is Vec) && old(self).decoder is Some ==> lzw_bad(old(self).lz().size, old(self).lz().fed + lzw_data@)
        || old(self).check_for_end_code && lzw_data@.len() == 0 && final(self).lz().fed == old(self).lz().fed && final(self).lz().made == old(self).lz().made
            && (lz_ok(old(self).lz()) ==> old(self).lz().made == lzw_out(old(self).lz().size, old(self).lz().fed) && !lzw_done(old(self).lz().size, old(self).lz().fed)))]
//// at let mut consumed_in
proof_decl!{ let ghost l0 = lz(*decoder); let ghost room = decode_buffer@.len(); }
proof!{ axiom_slice_len(lzw_data); axiom_slice_len(decode_buffer); }
//// at match decoded.status
proof!{
    assert(b0.subrange(co0 as int, b0.len() as int).len() == b0.len() - co0);
    assert(lzw_data@.take(consumed_in as int) =~= lzw_data@.take(ci0 as int) + lzw_data@.subrange(ci0 as int, lzw_data@.len() as int).take(decoded.consumed_in as int));
    assert(decode_buffer@.take(consumed_out as int) =~= decode_buffer@.take(co0 as int) + decode_buffer@.subrange(co0 as int, decode_buffer@.len() as int).take(decoded.consumed_out as int));
    assert(decode_buffer@.take(co0 as int) =~= b0.take(co0 as int));
    assert(lz(*decoder).fed =~= l0.fed + lzw_data@.take(consumed_in as int));
    assert(lz(*decoder).made =~= l0.made + decode_buffer@.take(consumed_out as int));
    assert(lz(d0).fed + lzw_data@.subrange(ci0 as int, lzw_data@.len() as int) =~= l0.fed + lzw_data@);
}
//// loop 0 loop
#[verus_spec(
  invariant lzw_data@.len() <= isize::MAX, room <= isize::MAX, consumed_in <= lzw_data@.len(), consumed_out <= decode_buffer@.len(), decode_buffer@.len() == room,
    lz_ok(l0) ==> lz_ok(lz(*decoder)), lz_bound(lz(*decoder)), lz(*decoder).size == l0.size,
    lz(*decoder).fed == l0.fed + lzw_data@.take(consumed_in as int),
    lz(*decoder).made == l0.made + decode_buffer@.take(consumed_out as int),
    l0.ended ==> lz(*decoder).ended && consumed_in == 0 && consumed_out == 0,
  invariant_except_break stalled ==> lz(*decoder).quiet,
  ensures lz(*decoder).ended || consumed_out == room || (consumed_in == lzw_data@.len() && (lz_ok(l0) ==> lz(*decoder).made == lzw_out(l0.size, lz(*decoder).fed))),
    self.check_for_end_code ==> consumed_in > 0 || consumed_out > 0 || lz(*decoder).ended || room == 0,
  decreases lzw_data@.len() - consumed_in + room - consumed_out, lz(*decoder).pot, if stalled { 0int } else { 1int }
)]
//// loopstart 0
proof_decl!{ let ghost d0 = *decoder; let ghost ci0 = consumed_in; let ghost co0 = consumed_out; let ghost b0 = decode_buffer@; }
//// fn LzwReader::discard_bytes props=C01,C02,C03,C14
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
#[verus_spec(r => requires old(self).wf()
  ensures final(self).wf(), final(self).check_for_end_code == old(self).check_for_end_code, final(self).min_code_size == old(self).min_code_size,
    (final(self).decoder is Some) == (old(self).decoder is Some),
    /*C03,C14*/ !old(self).check_for_end_code ==> r is Ok && *final(self) == *old(self),
    old(self).decoder is Some && old(self).lz().ended ==> r is Ok && *final(self) == *old(self),
    /*C03,C14*/ old(self).check_for_end_code && old(self).decoder is Some ==> (r is Ok ==> {
        &&& lz_ok(old(self).lz()) ==> lz_ok(final(self).lz())
        &&& final(self).lz().size == old(self).lz().size
        &&& old(self).lz().made.is_prefix_of(final(self).lz().made) && old(self).lz().fed.is_prefix_of(final(self).lz().fed) && final(self).lz().fed.is_prefix_of(old(self).lz().fed + lzw_data@)
        &&& final(self).lz().ended || (lzw_data@.len() > 0 && final(self).lz().fed == old(self).lz().fed + lzw_data@)
    }),
    /*C03,C12,C14,C25*/ r is Err ==> old(self).check_for_end_code && (old(self).decoder is Some ==> !old(self).lz().ended),
    /*C03,C12,C14,C25*/ r is Err && old(self).decoder is Some ==> lzw_bad(old(self).lz().size, old(self).lz().fed + lzw_data@)
        || lzw_data@.len() == 0 && (lz_ok(old(self).lz()) ==> !lzw_done(old(self).lz().size, old(self).lz().fed)))]
//// loop 0 while
#[verus_spec(
  invariant self.wf(), self.check_for_end_code == old(self).check_for_end_code, self.min_code_size == old(self).min_code_size,
    (self.decoder is Some) == (old(self).decoder is Some),
    !old(self).check_for_end_code ==> *self == *old(self), old(self).decoder is Some && old(self).lz().ended ==> *self == *old(self),
    old(self).decoder is Some ==> old(self).lz().made.is_prefix_of(self.lz().made) && old(self).lz().fed.is_prefix_of(self.lz().fed) && (lz_ok(old(self).lz()) ==> lz_ok(self.lz())) && self.lz().size == old(self).lz().size && self.lz().fed + data@ == old(self).lz().fed + lzw_data@,
    data@.len() == 0 ==> lzw_data@.len() == 0, lzw_data@.len() == 0 ==> data@.len() == 0 && self.lz().fed == old(self).lz().fed,
  ensures self.check_for_end_code ==> self.decoder is Some ==> self.lz().ended || (lzw_data@.len() > 0 && self.lz().fed == old(self).lz().fed + lzw_data@),
  decreases 16384 * self.lz().fed.len() - self.lz().made.len() + 16385 * data@.len(), if self.lz().ended { 0int } else { 1int }
)]
//// loopstart 0
proof!{ if lzw_data@.len() == 0 { assert(self.lz().fed + data@ =~= self.lz().fed); } }
//// fn OutputBuffer::append props=C01,C09,C13,C25
#[verus_spec(r => ensures (*final(self)).kept(*old(self)),
   r matches Ok(p) ==> copied(buf@, *old(self), *final(self), p.0 as int, p.1 as int) && (*old(self) is Vec ==> within(*memory_limit, final(self).cur().len())),
   r matches Err(e) ==> *old(self) is Vec && final(self).cur() == old(self).cur() && (oom(e) || !within(*memory_limit, old(self).cur().len() + buf@.len())))]
//// start
proof!{ axiom_slice_len(buf); if let OutputBuffer::Vec(v) = self { axiom_vec_len(**v); } broadcast use qm::axiom_question_mark; }
//// fn StreamingDecoder::try_current_frame props=C01
#[verus_spec(r => ensures r is Err ==> *final(self) == *old(self) && old(self).current is None,
   r matches Ok(f) ==> old(self).current == Some(*f) && *final(self) == (StreamingDecoder { current: Some(*final(f)), ..*old(self) }))]
//// fn StreamingDecoder::read_control_extension props=C01,C06,C25
#[verus_spec(r => ensures
   /*C06,C25*/ r is Ok <==> old(self).ext.data@.len() == 5,
   r is Err ==> *final(self) == *old(self),
   /*C06,C25*/ r is Ok ==> same((Abs { cur: Some(control(old(self).abs().cur, old(self).ext.data@)), ..old(self).abs() }), final(self).abs()),
   old(self).clean() ==> final(self).clean(), r is Ok ==> final(self).same_but_current(*old(self)))]
//// start
proof!{ lemma_control_bits(); broadcast use qm::axiom_question_mark; }
//// fn StreamingDecoder::add_frame props=C01,C05,C06,C25
#[verus_spec(ensures final(self).same_but_current(*old(self)), final(self).current is Some, old(self).clean() ==> final(self).clean(),
   /*C05,C06,C25*/ same((Abs { cur: Some(old(self).abs().pic()), ..old(self).abs() }), final(self).abs()))]
//// fn StreamingDecoder::next_state props=C01
//// split magic C01,C02,C03,C04,C25 => old(self).state is Magic
//// split screen C01,C02,C03,C04,C25 => old(self).state is ScreenDescriptor
//// split gpal C01,C02,C03,C04,C25 => old(self).state is GlobalPalette
//// split image_part C01,C02,C03,C05,C06,C08,C25 => old(self).state is ImageBlockStart && old(self).unused_internal_buffer_len + buf@.len() < 9
//// split image_check C01,C02,C03,C05,C06,C08,C25 => old(self).state is ImageBlockStart && old(self).unused_internal_buffer_len + buf@.len() >= 9 && old(self).check_frame_consistency
//// split image_nocheck C01,C02,C03,C05,C06,C08,C25 => old(self).state is ImageBlockStart && old(self).unused_internal_buffer_len + buf@.len() >= 9 && !old(self).check_frame_consistency
//// split block C01,C02,C03,C15,C16,C25 => old(self).state is BlockStart
//// split blockend C01,C02,C03,C15,C16,C25 => old(self).state is BlockEnd
//// split extstart C01,C02,C03,C06,C07,C15,C25 => old(self).state is ExtensionBlockStart
//// split extdata C01,C02,C03,C06,C07,C09,C15,C25 => old(self).state is ExtensionDataBlock
//// split app C01,C02,C03,C07,C15,C25 => old(self).state is ApplicationExtension
//// split lpal C01,C02,C03,C05,C25 => old(self).state is LocalPalette
//// split lzwinit C01,C02,C03,C05,C12,C13,C25 => old(self).state is LzwInit
//// split framedone C01,C02,C03,C05,C06,C12,C13,C15,C25 => old(self).state is FrameDecoded
//// split trailer C01,C02,C03,C16,C25 => old(self).state is Trailer
//// split copy C01,C02,C03,C09,C13,C25 => old(self).state is CopySubBlock
//// split decode C01,C02,C03,C12,C14,C25 => old(self).state is DecodeSubBlock
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
#[verus_spec(r => requires old(self).wf(), fits(old(self).state, buf@), @CASE@
  ensures final(self).cfg() == old(self).cfg(), (*final(write_into)).kept(*old(write_into)),
    old(self).header_end_reached ==> final(self).header_end_reached, final(self).wf(), r is Ok ==> buf@.len() > 0,
    buf@.len() > 0 && !data_state(old(self).state) ==> follows(step(old(self).cfg(), old(self).abs(), buf@), r, final(self).abs()),
    @COPY@/*C03,C04,C25*/ buf@.len() > 0 ==> (old(self).state is Magic ==> follows(step_magic(old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C04,C25*/ buf@.len() > 0 ==> (old(self).state is ScreenDescriptor ==> follows(step_screen(old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C04,C25*/ buf@.len() > 0 ==> (old(self).state is GlobalPalette ==> follows(step_gpal(old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C05,C06,C08,C25*/ buf@.len() > 0 ==> (old(self).state is ImageBlockStart ==> follows(step_image(old(self).cfg(), old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C15,C16,C25*/ buf@.len() > 0 ==> (old(self).state is BlockStart ==> follows(step_block(old(self).cfg(), old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C15,C16,C25*/ buf@.len() > 0 ==> (old(self).state is BlockEnd ==> follows(step_blockend(old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C06,C07,C15,C25*/ buf@.len() > 0 ==> (old(self).state is ExtensionBlockStart ==> follows(step_extstart(old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C06,C07,C09,C15,C25*/ buf@.len() > 0 ==> (old(self).state is ExtensionDataBlock ==> follows(step_extdata(old(self).cfg(), old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C07,C15,C25*/ buf@.len() > 0 ==> (old(self).state is ApplicationExtension ==> follows(step_app(old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C05,C25*/ buf@.len() > 0 ==> (old(self).state is LocalPalette ==> follows(step_lpal(old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C05,C13,C25*/ buf@.len() > 0 ==> (old(self).state is LzwInit ==> follows(step_lzwinit(old(self).cfg(), old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C03,C05,C06,C12,C13,C15,C25*/ buf@.len() > 0 ==> (old(self).state is FrameDecoded ==> follows(step_done(old(self).abs(), buf@), r, final(self).abs())),
    @COPY@/*C02,C16,C25*/ buf@.len() > 0 ==> (old(self).state is Trailer ==> follows(Res::Step(buf@.len() as int, Ev::Nothing, old(self).abs()), r, final(self).abs())),
    /*C03,C09,C13,C25*/ buf@.len() > 0 ==> (old(self).state is CopySubBlock ==> copy_step(*old(self), *final(self), buf@, *old(write_into), *final(write_into), r)),
    /*C03,C12,C25*/ buf@.len() > 0 ==> (old(self).state is DecodeSubBlock ==> (r matches Ok(p) ==> decode_step(*old(self), *final(self), buf@, *old(write_into), *final(write_into), p))),
    /*C03,C12,C14,C25*/ buf@.len() > 0 ==> (old(self).state is DecodeSubBlock ==> (r is Err ==> decode_err(*old(self), buf@, *old(write_into)))),
    /*C02*/ r matches Ok(p) ==> p.0 <= buf@.len() && (p.0 > 0 || !(ev_of(p.1) is Nothing) || rank(final(self).state) < rank(old(self).state)),
    awaits0(final(self).state) && buf@.len() > 0 ==> (r matches Ok(p) && p.0 < buf@.len() && buf@[p.0 as int] == 0),
    !data_state(old(self).state) ==> *final(write_into) == *old(write_into),
    !(old(self).state is LzwInit || old(self).state is DecodeSubBlock) ==> final(self).lzw_reader == old(self).lzw_reader,
    /*C03,C12,C25*/ old(self).state is LzwInit && !old(self).skip_frame_decoding && r is Ok ==> final(self).lzw_reader.decoder is Some && lz_fresh(final(self).lzw_reader.lz(), byte_of(old(self).state)) && lz_ok(final(self).lzw_reader.lz()),
  )]
//// start
proof!{ reveal(step); axiom_slice_len(buf); if self.state is ScreenDescriptor || self.state is ImageBlockStart || self.state is ApplicationExtension { lemma_flag_bits(); } if self.state is ExtensionDataBlock { axiom_vec_len(self.ext.data); } broadcast use qm::axiom_question_mark; }
//// fn StreamingDecoder::update props=C01,C02,C03,C12,C13,C14,C25
#[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(40)]
#[verus_spec(r => requires old(self).wf(), fits(old(self).state, buf@)
  ensures final(self).wf(), final(self).cfg() == old(self).cfg(), (*final(write_into)).kept(*old(write_into)),
    old(self).header_end_reached ==> final(self).header_end_reached,
    /*C02*/ r matches Ok(p) ==> p.0 <= buf@.len() && (ev_of(p.1) is Nothing ==> p.0 == buf@.len()),
    awaits0(final(self).state) && buf@.len() > 0 ==> (r matches Ok(p) && p.0 < buf@.len() && buf@[p.0 as int] == 0),
    buf@.len() == 0 ==> final(self).state == old(self).state,
    /*C03,C04,C05,C06,C07,C08,C09,C15,C16,C25*/ !data_state(old(self).state) ==> follows(upd(old(self).cfg(), old(self).abs(), buf@), r, final(self).abs()),
    !data_state(old(self).state) ==> *final(write_into) == *old(write_into),
    !data_state(old(self).state) && r is Ok && !entering(r) ==> final(self).lzw_reader == old(self).lzw_reader,
    /*C12,C25*/ entering(r) && !old(self).skip_frame_decoding ==> final(self).lzw_reader.decoder is Some && lz_fresh(final(self).lzw_reader.lz(), final(self).lzw_reader.min_code_size) && lz_ok(final(self).lzw_reader.lz()),
    /*C12,C13,C14,C25*/ data_state(old(self).state) && r is Ok ==> data_upd(*old(self), *final(self), buf@, *old(write_into), *final(write_into), r->Ok_0),
    /*C09,C12,C14,C25*/ data_state(old(self).state) ==> (r matches Err(e) ==> oom(e) || spoilt(*old(self), brun(blk_of(old(self).state), buf@), *old(write_into))),
  )]
//// start
proof_decl!{ let ghost s0 = buf@; let ghost b0 = Blk { left: left_of(self.state) as nat, out: Seq::empty(), end: false }; }
proof!{ axiom_slice_len(buf); broadcast use qm::axiom_question_mark; assert(s0.take(0) =~= Seq::empty()); assert(brun(b0, s0.take(0)) == b0) by { reveal_with_fuel(brun, 1); } assert(same(self.abs(), self.abs())); }
//// loop 0 while
#[verus_spec(
  invariant len == s0.len(), buf@.len() <= len, buf@ =~= s0.skip(len - buf@.len()), self.wf(), self.cfg() == old(self).cfg(), (*write_into).kept(*old(write_into)),
    old(self).header_end_reached ==> self.header_end_reached, fits(self.state, buf@), awaits0(self.state) && len > 0 ==> buf@.len() > 0,
    !data_state(old(self).state) ==> !data_state(self.state) && *write_into == *old(write_into) && self.lzw_reader == old(self).lzw_reader && same_upd(upd(old(self).cfg(), old(self).abs(), s0), len - buf@.len(), upd(self.cfg(), self.abs(), buf@)),
    data_state(old(self).state) ==> in_data(*old(self), *self, *old(write_into), *write_into, brun(b0, s0.take(len - buf@.len())), buf@),
    len == 0 ==> self.state == old(self).state,
  decreases buf@.len(), rank(self.state)
)]
//// loopstart 0
proof_decl!{ let ghost a0 = self.abs(); let ghost st0 = self.state; let ghost c0 = buf@; let ghost me = *self; let ghost wi = *write_into; let ghost pos0 = len - buf@.len(); }
proof!{ lemma_upd_data(self.cfg(), a0, c0); broadcast use qm::axiom_question_mark; if data_state(old(self).state) { lemma_data_err(*old(self), me, *old(write_into), wi, s0, pos0); } }
//// at match decoded {
proof!{
    assert(c0.skip(bytes as int) =~= s0.skip(len - c0.len() + bytes));
    if !data_state(st0) {
        let st = step(self.cfg(), a0, c0);
        assert(st is Step && st->Step_0 == bytes && st->Step_1 == ev_of(decoded) && st->Step_2 == self.abs());
        assert(upd(self.cfg(), a0, c0) == if ev_of(decoded) is Nothing { after(bytes as int, upd(self.cfg(), self.abs(), c0.skip(bytes as int))) } else { st });
        if st0 is FrameDecoded { reveal(step); }
    }
    if data_state(old(self).state) {
        lemma_data_step(*old(self), me, *self, *old(write_into), wi, *write_into, s0, pos0, (bytes, decoded));
    }
}
//// tail
use crate::vspec::*; use crate::reader::within; use crate::common::*;
verus!{
impl LzwReader {
    pub open spec fn lz(self) -> Lz { lz(self.decoder->0) }
    pub open spec fn wf(self) -> bool { self.decoder is Some ==> 1 <= self.min_code_size <= 11 && self.lz().size == self.min_code_size && lz_bound(self.lz()) }
}
impl OutputBuffer<'_> {
    pub open spec fn cur(self) -> Seq<u8> { match self { OutputBuffer::Slice(s) => (*s)@, OutputBuffer::Vec(v) => (*v)@, OutputBuffer::None => Seq::empty() } }
    pub open spec fn room(self) -> nat { match self { OutputBuffer::Slice(s) => s@.len(), _ => 0 } }
    #[verifier::prophetic] pub open spec fn fin(self) -> Seq<u8> { match self { OutputBuffer::Slice(s) => final(s)@, OutputBuffer::Vec(v) => final(v)@, OutputBuffer::None => Seq::empty() } }
    /// still the same buffer of the caller
    #[verifier::prophetic] pub open spec fn kept(self, o: OutputBuffer<'_>) -> bool {
        self.fin() == o.fin() && (self is Slice <==> o is Slice) && (self is Vec <==> o is Vec) && (o is Slice ==> self.cur().len() == o.cur().len())
    }
}
/// `append` took `c` bytes and kept `k`
pub open spec fn copied(data: Seq<u8>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, c: int, k: int) -> bool {
    match ob {
        OutputBuffer::Slice(_) => c == k && c == if data.len() < ob.room() { data.len() as int } else { ob.room() as int } && nb.cur() =~= data.take(c) + ob.cur().skip(c),
        OutputBuffer::Vec(_) => c == k && c == data.len() && nb.cur() =~= ob.cur() + data,
        OutputBuffer::None => c == data.len() && k == 0,
    }
}
/// What one step may depend on besides the state: the options.
pub struct Cfg { pub skip: bool, pub frames: bool, pub unknown: bool, pub limit: MemoryLimit, pub end: bool }
/// Metadata of a frame
pub struct Pic { pub delay: u16, pub dispose: DisposalMethod, pub trns: Option<u8>, pub user: bool, pub left: u16, pub top: u16, pub width: u16, pub height: u16, pub inter: bool, pub pal: Option<Seq<u8>> }
/// Abstract state of the decoder, without the LZW part
pub struct Abs { pub st: State, pub has: Seq<u8>, pub ver: Version, pub w: u16, pub h: u16, pub gpal: Seq<u8>, pub id: u8, pub ext: Seq<u8>, pub ext_end: bool, pub cur: Option<Pic>, pub started: bool, pub min: u8 }
pub enum Ev { Nothing, GlobalPalette(Seq<u8>), BackgroundColor(u8), Repetitions(Repeat), HeaderEnd, BlockStart(Block), Sub(u8), Blk(u8), Meta(Option<u8>), Bytes(int), Copied(int), DataEnd }
pub enum Res { Err, Data, Step(int, Ev, Abs) }
pub open spec fn pic_of(f: Frame<'_>) -> Pic {
    Pic { delay: f.delay, dispose: f.dispose, trns: f.transparent, user: f.needs_user_input, left: f.left, top: f.top, width: f.width, height: f.height, inter: f.interlaced,
        pal: match f.palette { Some(p) => Some(p@), None => None } }
}
/// metadata of a frame nothing has been said about
pub open spec fn pic0() -> Pic { Pic { delay: 0, dispose: DisposalMethod::Keep, trns: None, user: false, left: 0, top: 0, width: 0, height: 0, inter: false, pal: None } }
impl Abs { pub open spec fn pic(self) -> Pic { match self.cur { Some(p) => p, None => pic0() } } }
pub open spec fn ev_of(d: Decoded) -> Ev {
    match d {
        Decoded::Nothing => Ev::Nothing, Decoded::GlobalPalette(p) => Ev::GlobalPalette(p@), Decoded::BackgroundColor(c) => Ev::BackgroundColor(c),
        Decoded::Repetitions(r) => Ev::Repetitions(r), Decoded::HeaderEnd => Ev::HeaderEnd, Decoded::BlockStart(b) => Ev::BlockStart(b),
        Decoded::SubBlockFinished(a) => Ev::Sub(a.0), Decoded::BlockFinished(a) => Ev::Blk(a.0),
        Decoded::FrameMetadata(t) => Ev::Meta(match t { FrameDataType::Pixels => None, FrameDataType::Lzw { min_code_size } => Some(min_code_size) }),
        Decoded::BytesDecoded(n) => Ev::Bytes(n@ as int), Decoded::LzwDataCopied(n) => Ev::Copied(n as int), Decoded::DataEnd => Ev::DataEnd,
    }
}
pub open spec fn data_state(st: State) -> bool { st is CopySubBlock || st is DecodeSubBlock }
/// One step of the state machine outside image data.
#[verifier::opaque]
pub open spec fn step(cfg: Cfg, a: Abs, s: Seq<u8>) -> Res {
    match a.st {
        State::Magic => step_magic(a, s),
        State::ScreenDescriptor => step_screen(a, s),
        State::ImageBlockStart => step_image(cfg, a, s),
        State::GlobalPalette(_) => step_gpal(a, s),
        State::BlockStart(_) => step_block(cfg, a, s),
        State::BlockEnd => step_blockend(a, s),
        State::ExtensionBlockStart => step_extstart(a, s),
        State::ExtensionDataBlock(_) => step_extdata(cfg, a, s),
        State::ApplicationExtension => step_app(a, s),
        State::LocalPalette(_) => step_lpal(a, s),
        State::LzwInit(_) => step_lzwinit(cfg, a, s),
        State::FrameDecoded => step_done(a, s),
        State::Trailer => Res::Step(s.len() as int, Ev::Nothing, a),
        _ => Res::Data,
    }
}
/// One call of `update`: steps up to the next event, the end of the input, or image data.
pub open spec fn upd(cfg: Cfg, a: Abs, s: Seq<u8>) -> Res
    decreases s.len(), rank(a.st)
{
    if s.len() == 0 { Res::Step(0, Ev::Nothing, a) }
    else {
        match step(cfg, a, s) {
            Res::Step(c, e, a1) => if e is Nothing && 0 <= c <= s.len() && (c > 0 || rank(a1.st) < rank(a.st)) { after(c, upd(cfg, a1, s.skip(c))) } else { Res::Step(c, e, a1) },
            x => x,
        }
    }
}
pub open spec fn after(c: int, r: Res) -> Res { match r { Res::Step(d, e, a) => Res::Step(c + d, e, a), x => x } }
pub open spec fn same_upd(x: Res, c: int, y: Res) -> bool { x == after(c, y) }
pub open spec fn updates(s: Res, r: Result<(usize, Decoded), DecodingError>, a: Abs) -> bool { s is Data || follows(s, r, a) }
/// equality of states; `has` is compared byte by byte
pub open spec fn same(a: Abs, b: Abs) -> bool { a.has =~= b.has && a == (Abs { has: a.has, ..b }) }
pub open spec fn follows(s: Res, r: Result<(usize, Decoded), DecodingError>, a: Abs) -> bool {
    match r { Ok(p) => s is Step && s->Step_0 == p.0 && s->Step_1 == ev_of(p.1) && same(s->Step_2, a), Err(e) => s is Err || oom(e) }
}
pub open spec fn left_of(st: State) -> usize { match st { State::GlobalPalette(n) => n, State::ExtensionDataBlock(n) => n, State::LocalPalette(n) => n, State::CopySubBlock(n) => n, State::DecodeSubBlock(n) => n, _ => 0 } }
pub open spec fn byte_of(st: State) -> u8 { match st { State::BlockStart(b) => b, State::LzwInit(b) => b, _ => 0 } }
pub open spec fn need(st: State) -> nat { match st { State::Magic => 6, State::ScreenDescriptor => 7, State::ImageBlockStart => 9, _ => 0 } }
/// bytes taken to fill a fixed-size header of `n` bytes, and what is then there
pub open spec fn taken(a: Abs, s: Seq<u8>, n: int) -> int { if s.len() < n - a.has.len() { s.len() as int } else { n - a.has.len() } }
pub open spec fn got(a: Abs, s: Seq<u8>, n: int) -> Seq<u8> { a.has + s.take(taken(a, s, n)) }
pub open spec fn at_most(left: usize, s: Seq<u8>) -> int { if s.len() < left { s.len() as int } else { left as int } }
pub open spec fn pal_size(flags: u8) -> usize { if flags >= 128 { (3 * table_entries((flags % 8) as u8)) as usize } else { 0 } }
pub open spec fn step_magic(a: Abs, s: Seq<u8>) -> Res {
    let g = got(a, s, 6); let c = taken(a, s, 6);
    if g.len() < 6 { Res::Step(c, Ev::Nothing, Abs { has: g, ..a }) }
    else if g =~= seq![0x47u8, 0x49, 0x46, 0x38, 0x37, 0x61] { Res::Step(c, Ev::Nothing, Abs { st: State::ScreenDescriptor, has: Seq::empty(), ver: Version::V87a, ..a }) }
    else if g =~= seq![0x47u8, 0x49, 0x46, 0x38, 0x39, 0x61] { Res::Step(c, Ev::Nothing, Abs { st: State::ScreenDescriptor, has: Seq::empty(), ver: Version::V89a, ..a }) }
    else { Res::Err }
}
pub open spec fn step_screen(a: Abs, s: Seq<u8>) -> Res {
    let g = got(a, s, 7); let c = taken(a, s, 7);
    if g.len() < 7 { Res::Step(c, Ev::Nothing, Abs { has: g, ..a }) }
    else { Res::Step(c, Ev::BackgroundColor(g[5]), Abs { st: State::GlobalPalette(pal_size(g[4])), has: Seq::empty(), w: le16_at(g, 0), h: le16_at(g, 2), ..a }) }
}
pub open spec fn step_gpal(a: Abs, s: Seq<u8>) -> Res {
    let left = left_of(a.st); let n = at_most(left, s);
    if left > 0 { Res::Step(n, Ev::Nothing, Abs { st: State::GlobalPalette((left - n) as usize), gpal: a.gpal + s.take(n), ..a }) }
    else { Res::Step(if s[0] == 0x3B { 0 } else { 1 }, Ev::GlobalPalette(a.gpal), Abs { st: State::BlockStart(s[0]), gpal: Seq::empty(), ..a }) }
}
pub open spec fn image_pic(p: Pic, g: Seq<u8>) -> Pic {
    Pic { left: le16_at(g, 0), top: le16_at(g, 2), width: le16_at(g, 4), height: le16_at(g, 6), inter: (g[8] / 64) % 2 == 1, pal: if g[8] >= 128 { Some(match p.pal { Some(x) => x, None => Seq::empty() }) } else { p.pal }, ..p }
}
pub open spec fn in_screen(p: Pic, a: Abs) -> bool { p.left + p.width <= a.w && p.top + p.height <= a.h }
pub open spec fn step_image(cfg: Cfg, a: Abs, s: Seq<u8>) -> Res {
    let g = got(a, s, 9); let c = taken(a, s, 9);
    if g.len() < 9 { Res::Step(c, Ev::Nothing, Abs { has: g, ..a }) }
    else if cfg.frames && !in_screen(image_pic(a.pic(), g), a) { Res::Err }
    else { Res::Step(c, Ev::Nothing, Abs { st: State::LocalPalette(pal_size(g[8])), has: Seq::empty(), cur: Some(image_pic(a.pic(), g)), ..a }) }
}
pub open spec fn step_block(cfg: Cfg, a: Abs, s: Seq<u8>) -> Res {
    let t = byte_of(a.st); let b = s[0];
    if !a.started && t != 0x21 { Res::Step(0, Ev::HeaderEnd, Abs { started: true, ..a }) }
    else if t == 0x2C { Res::Step(0, Ev::BlockStart(Block::Image), Abs { st: State::ImageBlockStart, cur: Some(a.pic()), ..a }) }
    else if t == 0x21 {
        if known_ext(b) is Some { Res::Step(1, Ev::BlockStart(Block::Extension), Abs { st: State::ExtensionBlockStart, id: b, ext: Seq::empty(), ..a }) } else { Res::Err }
    }
    else if t == 0x3B { Res::Step(1, Ev::BlockStart(Block::Trailer), Abs { st: State::Trailer, ..a }) }
    else if cfg.unknown { Res::Step(if b == 0 { 0 } else { 1 }, Ev::Nothing, Abs { st: State::ExtensionDataBlock(b as usize), id: 0, ext: Seq::empty(), ..a }) }
    else { Res::Err }
}
pub open spec fn step_blockend(a: Abs, s: Seq<u8>) -> Res { Res::Step(if s[0] == 0x3B { 0 } else { 1 }, Ev::Nothing, Abs { st: State::BlockStart(s[0]), ..a }) }
pub open spec fn step_extstart(a: Abs, s: Seq<u8>) -> Res { Res::Step(if s[0] == 0 { 0 } else { 1 }, Ev::Nothing, Abs { st: State::ExtensionDataBlock(s[0] as usize), ext: a.ext.push(s[0]), ..a }) }
/// the graphic control fields; `e` is the size byte and the four data bytes
pub open spec fn control(cur: Option<Pic>, e: Seq<u8>) -> Pic {
    let p = match cur { Some(p) => p, None => pic0() };
    Pic { delay: le16_at(e, 2), dispose: match dispose_of(((e[1] / 4) % 8) as u8) { Some(d) => d, None => DisposalMethod::Any }, user: (e[1] / 2) % 2 == 1, trns: if e[1] % 2 == 1 { Some(e[4]) } else { None }, ..p }
}
pub open spec fn step_extdata(cfg: Cfg, a: Abs, s: Seq<u8>) -> Res {
    let left = left_of(a.st); let n = at_most(left, s);
    if left > 0 {
        if within(cfg.limit, (a.ext.len() + n) as nat) { Res::Step(n, Ev::Nothing, Abs { st: State::ExtensionDataBlock((left - n) as usize), ext: a.ext + s.take(n), ..a }) } else { Res::Err }
    } else if s[0] != 0 { Res::Step(1, Ev::Sub(a.id), Abs { st: State::ExtensionDataBlock(s[0] as usize), ext_end: false, ..a }) }
    else {
        match known_ext(a.id) {
            Some(Extension::Application) => Res::Step(0, Ev::Blk(a.id), Abs { st: State::ApplicationExtension, ext_end: true, ..a }),
            Some(Extension::Control) => if a.ext.len() == 5 { Res::Step(1, Ev::Blk(a.id), Abs { st: State::BlockEnd, ext_end: true, cur: Some(control(a.cur, a.ext)), ..a }) } else { Res::Err },
            _ => Res::Step(1, Ev::Blk(a.id), Abs { st: State::BlockEnd, ext_end: true, ..a }),
        }
    }
}
pub open spec fn netscape() -> Seq<u8> { seq![0x4Eu8, 0x45, 0x54, 0x53, 0x43, 0x41, 0x50, 0x45, 0x32, 0x2E, 0x30, 1] }
pub open spec fn step_app(a: Abs, s: Seq<u8>) -> Res {
    if a.ext.len() >= 15 && a.ext.subrange(1, 13) =~= netscape() { let n = le16_at(a.ext, 13); Res::Step(1, Ev::Repetitions(if n == 0 { Repeat::Infinite } else { Repeat::Finite(n) }), Abs { st: State::BlockEnd, ..a }) }
    else { Res::Step(1, Ev::Nothing, Abs { st: State::BlockEnd, ..a }) }
}
pub open spec fn step_lpal(a: Abs, s: Seq<u8>) -> Res {
    let left = left_of(a.st); let n = at_most(left, s);
    if left > 0 { Res::Step(n, Ev::Nothing, Abs { st: State::LocalPalette((left - n) as usize), cur: Some(Pic { pal: Some(a.pic().pal->0 + s.take(n)), ..a.pic() }), ..a }) }
    else { Res::Step(1, Ev::Nothing, Abs { st: State::LzwInit(s[0]), ..a }) }
}
pub open spec fn step_lzwinit(cfg: Cfg, a: Abs, s: Seq<u8>) -> Res {
    let m = byte_of(a.st); let c = if s[0] == 0 { 0int } else { 1 };
    if !(1 <= m <= 11) { Res::Err }
    else if cfg.skip { Res::Step(c, Ev::Meta(Some(m)), Abs { st: State::CopySubBlock(s[0] as usize), ..a }) }
    else { Res::Step(c, Ev::Meta(None), Abs { st: State::DecodeSubBlock(s[0] as usize), min: m, ..a }) }
}
pub open spec fn step_done(a: Abs, s: Seq<u8>) -> Res { Res::Step(1, Ev::DataEnd, Abs { st: State::BlockEnd, cur: None, ..a }) }
pub open spec fn entering(r: Result<(usize, Decoded), DecodingError>) -> bool { r matches Ok(p) && ev_of(p.1) is Meta }
/// states that are only entered with a zero byte waiting
pub open spec fn awaits0(st: State) -> bool { st is ApplicationExtension || st is FrameDecoded }
#[verifier::spinoff_prover]
pub proof fn lemma_upd_data(cfg: Cfg, a: Abs, s: Seq<u8>)
    ensures upd(cfg, a, s) is Data <==> data_state(a.st) && s.len() > 0, step(cfg, a, s) is Data <==> data_state(a.st),
        !data_state(a.st) && s.len() > 0 ==> (step(cfg, a, s) matches Res::Step(c, e, a1) ==> (e is Nothing ==> !data_state(a1.st)) && (e is Meta <==> a.st is LzwInit)),
    decreases s.len(), rank(a.st)
{
    reveal(step);
    if s.len() > 0 { match step(cfg, a, s) { Res::Step(c, e, a1) => if e is Nothing && 0 <= c <= s.len() && (c > 0 || rank(a1.st) < rank(a.st)) { lemma_upd_data(cfg, a1, s.skip(c)); } else {}, _ => {} } }
}
/// A chain of data sub-blocks being read: bytes left in the current one, payload so far, whether the terminator was seen
/// (then `left` counts the bytes behind it).
pub struct Blk { pub left: nat, pub out: Seq<u8>, pub end: bool }
pub open spec fn bstep(b: Blk, x: u8) -> Blk {
    if b.end { Blk { left: b.left + 1, ..b } } else if b.left > 0 { Blk { left: (b.left - 1) as nat, out: b.out.push(x), end: false } } else if x == 0 { Blk { end: true, ..b } } else { Blk { left: x as nat, ..b } }
}
pub open spec fn brun(b: Blk, s: Seq<u8>) -> Blk decreases s.len() { if s.len() == 0 { b } else { bstep(brun(b, s.drop_last()), s.last()) } }
pub proof fn lemma_brun_add(b: Blk, x: Seq<u8>, y: Seq<u8>)
    ensures brun(b, x + y) == brun(brun(b, x), y) decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); } else { assert((x + y).drop_last() =~= x + y.drop_last()); lemma_brun_add(b, x, y.drop_last()); }
}
pub proof fn lemma_brun_data(b: Blk, x: Seq<u8>)
    requires !b.end, x.len() <= b.left,
    ensures brun(b, x) == (Blk { left: (b.left - x.len()) as nat, out: b.out + x, end: false }) decreases x.len()
{
    if x.len() == 0 { assert(b.out + x =~= b.out); } else { lemma_brun_data(b, x.drop_last()); assert((b.out + x.drop_last()).push(x.last()) =~= b.out + x); }
}
pub proof fn lemma_brun_one(b: Blk, x: u8)
    ensures brun(b, seq![x]) == bstep(b, x)
{ assert(seq![x].drop_last() =~= Seq::empty()); reveal_with_fuel(brun, 2); }
/// the LZW decoder went from `o` to `n` while payload `q` was received
pub open spec fn feeds(o: Lz, n: Lz, q: Seq<u8>) -> bool {
    &&& n.size == o.size && (lz_ok(o) ==> lz_ok(n)) && o.made.is_prefix_of(n.made)
    &&& if o.ended { n.ended && n.fed == o.fed && n.made == o.made } else { o.fed.is_prefix_of(n.fed) && n.fed.is_prefix_of(o.fed + q) && (n.ended || n.fed =~= o.fed + q) }
}
pub open spec fn drained(l: Lz) -> bool { l.ended || (lz_ok(l) ==> l.made == lzw_out(l.size, l.fed)) }
pub open spec fn blk_of(st: State) -> Blk { Blk { left: left_of(st) as nat, out: Seq::empty(), end: st is BlockEnd } }
pub open spec fn state_of(o: State, b: Blk) -> State { if b.end { State::BlockEnd } else if o is CopySubBlock { State::CopySubBlock(b.left as usize) } else { State::DecodeSubBlock(b.left as usize) } }
/// state after data sub-blocks were read up to `b`
pub open spec fn abs_of(o: Abs, b: Blk) -> Abs { Abs { st: state_of(o.st, b), cur: if b.end { None } else { o.cur }, ..o } }
/// the LZW stream is followed: its pixels are wanted, or at least its end code
pub open spec fn tracked(l: LzwReader, ob: OutputBuffer<'_>) -> bool { ob is Slice && ob.room() > 0 || ob is None && l.check_for_end_code }
/// within one `update`, image data read so far without anything to report; `s` is the rest of the input
pub open spec fn in_data(o: StreamingDecoder, n: StreamingDecoder, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, b: Blk, s: Seq<u8>) -> bool {
    &&& !b.end && b.left <= 255
    &&& if n.state is FrameDecoded { b.left == 0 && s.len() > 0 && s[0] == 0 && same(Abs { st: State::FrameDecoded, ..o.abs() }, n.abs()) } else { same(abs_of(o.abs(), b), n.abs()) }
    &&& o.state is CopySubBlock ==> b.out.len() == 0 && nb == ob && n.lzw_reader == o.lzw_reader
    &&& o.state is DecodeSubBlock ==> n.lzw_reader.decoder is Some && (tracked(o.lzw_reader, ob) ==> {
            &&& feeds(o.lzw_reader.lz(), n.lzw_reader.lz(), b.out) && (ob is Slice ==> n.lzw_reader.lz().made == o.lzw_reader.lz().made) && n.lzw_reader.check_for_end_code == o.lzw_reader.check_for_end_code
            &&& n.state is FrameDecoded ==> drained(n.lzw_reader.lz())
        })
}
/// image data read from `o` to `n` up to `b`, event `ev`
pub open spec fn data_to(o: StreamingDecoder, n: StreamingDecoder, b: Blk, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, ev: Ev) -> bool {
    let (lo, ln) = (o.lzw_reader.lz(), n.lzw_reader.lz());
    &&& b.left <= 255 && same(abs_of(o.abs(), b), n.abs()) && (ev is DataEnd <==> b.end) && (b.end ==> b.left == 0)
    &&& if o.state is CopySubBlock {
            &&& n.lzw_reader == o.lzw_reader
            &&& ev is Copied || ev is Nothing || ev is DataEnd
            &&& if ev is Copied { put(b.out, ob, nb, ev->Copied_0) && (ob is Slice || b.out.len() > 0) && (ob is Vec ==> within(o.memory_limit, nb.cur().len())) } else { nb == ob && b.out.len() == 0 }
        } else {
            &&& n.lzw_reader.decoder is Some && (ev is Bytes || ev is Nothing || ev is DataEnd) && (ev is Bytes ==> !(ob is None) && ev->Bytes_0 > 0 && (ob is Slice ==> ev->Bytes_0 <= ob.room()))
            &&& tracked(o.lzw_reader, ob) ==> {
                &&& feeds(lo, ln, b.out)
                &&& ob is Slice ==> if ev is Bytes { ln.made == lo.made + nb.cur().take(ev->Bytes_0) } else { ln.made == lo.made }
                &&& b.end ==> drained(ln)
            }
        }
}
/// one `update` within image data
pub open spec fn data_upd(o: StreamingDecoder, n: StreamingDecoder, s: Seq<u8>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, p: (usize, Decoded)) -> bool {
    let b = brun(blk_of(o.state), s.take(p.0 as int));
    data_to(o, n, b, ob, nb, ev_of(p.1)) && (b.end ==> p.0 > 0 && s[p.0 - 1] == 0)
}
pub proof fn lemma_data_to(o: StreamingDecoder, m: StreamingDecoder, n: StreamingDecoder, x: Seq<u8>, y: Seq<u8>, ob: OutputBuffer<'_>, wb: OutputBuffer<'_>, nb: OutputBuffer<'_>, ev: Ev)
    requires data_state(o.state), data_to(o, m, brun(blk_of(o.state), x), ob, wb, Ev::Nothing), data_to(m, n, brun(blk_of(m.state), y), wb, nb, ev), m.cfg() == o.cfg(), ob is Slice == wb is Slice, ob is Vec == wb is Vec, ob.room() == wb.room(),
    ensures data_to(o, n, brun(blk_of(o.state), x + y), ob, nb, ev)
{
    let b0 = blk_of(o.state); let b1 = brun(b0, x); let b2 = brun(blk_of(m.state), y);
    lemma_brun_add(b0, x, y);
    assert(!b1.end); assert(blk_of(m.state) == Blk { out: Seq::empty(), ..b1 });
    lemma_brun_out(b1, y);
    assert(brun(b0, x + y) == Blk { out: b1.out + b2.out, ..b2 });
    if o.state is CopySubBlock { assert(b1.out + b2.out =~= b2.out); }
    else if tracked(o.lzw_reader, ob) { lemma_feeds(o.lzw_reader.lz(), m.lzw_reader.lz(), n.lzw_reader.lz(), b1.out, b2.out); }
}
pub proof fn lemma_brun_out(b: Blk, y: Seq<u8>)
    ensures brun(b, y) == (Blk { out: b.out + brun(Blk { out: Seq::empty(), ..b }, y).out, ..brun(Blk { out: Seq::empty(), ..b }, y) })
    decreases y.len()
{
    let e = Blk { out: Seq::empty(), ..b };
    if y.len() == 0 { assert(b.out + Seq::<u8>::empty() =~= b.out); }
    else { lemma_brun_out(b, y.drop_last()); let r = brun(e, y.drop_last()); assert(b.out + r.out.push(y.last()) =~= (b.out + r.out).push(y.last())); }
}
/// A decoder state as it is between steps
pub open spec fn awf(a: Abs) -> bool { if need(a.st) > 0 { a.has.len() < need(a.st) } else { a.has.len() == 0 } }
pub open spec fn extends(cfg: Cfg, a: Abs, s: Seq<u8>, t: Seq<u8>) -> bool {
    step(cfg, a, s + t) == step(cfg, a, s)
    || (step(cfg, a, s) matches Res::Step(c, e, a1) && c == s.len() && e is Nothing && !data_state(a1.st) && t.len() > 0 && step(cfg, a, s + t) == after(c, step(cfg, a1, t)))
}
proof fn lemma_got(a: Abs, s: Seq<u8>, t: Seq<u8>, n: int)
    requires s.len() < n - a.has.len(),
    ensures ({ let a1 = Abs { has: got(a, s, n), ..a }; got(a1, t, n) == got(a, s + t, n) && taken(a, s + t, n) == s.len() + taken(a1, t, n) })
{ let a1 = Abs { has: got(a, s, n), ..a }; assert(got(a, s, n) =~= a.has + s); assert(got(a1, t, n) =~= got(a, s + t, n)); }
proof fn lemma_ext_magic(cfg: Cfg, a: Abs, s: Seq<u8>, t: Seq<u8>)
    requires s.len() > 0, a.st is Magic, awf(a),
    ensures extends(cfg, a, s, t)
{
    let u = s + t; let n = need(a.st) as int;
    assert forall|b: Abs, x: Seq<u8>| b.st is Magic implies #[trigger] step(cfg, b, x) == step_magic(b, x) by { reveal(step); }
    if s.len() < n - a.has.len() {
        let a1 = Abs { has: got(a, s, n), ..a };
        assert(step(cfg, a, s) == Res::Step(s.len() as int, Ev::Nothing, a1));
        if t.len() == 0 { assert(u =~= s); } else {
            lemma_got(a, s, t, n);
            assert(step_magic(a, u) == after(s.len() as int, step_magic(a1, t)));
        }
    } else { assert(got(a, u, n) =~= got(a, s, n)); assert(taken(a, u, n) == taken(a, s, n)); assert(step_magic(a, u) == step_magic(a, s)); }
}
proof fn lemma_ext_screen(cfg: Cfg, a: Abs, s: Seq<u8>, t: Seq<u8>)
    requires s.len() > 0, a.st is ScreenDescriptor, awf(a),
    ensures extends(cfg, a, s, t)
{
    let u = s + t; let n = need(a.st) as int;
    assert forall|b: Abs, x: Seq<u8>| b.st is ScreenDescriptor implies #[trigger] step(cfg, b, x) == step_screen(b, x) by { reveal(step); }
    if s.len() < n - a.has.len() {
        let a1 = Abs { has: got(a, s, n), ..a };
        assert(step(cfg, a, s) == Res::Step(s.len() as int, Ev::Nothing, a1));
        if t.len() == 0 { assert(u =~= s); } else {
            lemma_got(a, s, t, n);
            assert(step_screen(a, u) == after(s.len() as int, step_screen(a1, t)));
        }
    } else { assert(got(a, u, n) =~= got(a, s, n)); assert(taken(a, u, n) == taken(a, s, n)); assert(step_screen(a, u) == step_screen(a, s)); }
}
#[verifier::spinoff_prover]
proof fn lemma_ext_image(cfg: Cfg, a: Abs, s: Seq<u8>, t: Seq<u8>)
    requires s.len() > 0, a.st is ImageBlockStart, awf(a),
    ensures extends(cfg, a, s, t)
{
    let u = s + t; let n = need(a.st) as int;
    assert forall|b: Abs, x: Seq<u8>| b.st is ImageBlockStart implies #[trigger] step(cfg, b, x) == step_image(cfg, b, x) by { reveal(step); }
    if s.len() < n - a.has.len() {
        let a1 = Abs { has: got(a, s, n), ..a };
        assert(step(cfg, a, s) == Res::Step(s.len() as int, Ev::Nothing, a1));
        if t.len() == 0 { assert(u =~= s); } else {
            lemma_got(a, s, t, n);
            assert(step_image(cfg, a, u) == after(s.len() as int, step_image(cfg, a1, t)));
        }
    } else { assert(got(a, u, n) =~= got(a, s, n)); assert(taken(a, u, n) == taken(a, s, n)); assert(step_image(cfg, a, u) == step_image(cfg, a, s)); }
}
proof fn lemma_ext_gpal(cfg: Cfg, a: Abs, s: Seq<u8>, t: Seq<u8>)
    requires s.len() > 0, a.st is GlobalPalette, left_of(a.st) > 0,
    ensures extends(cfg, a, s, t)
{
    let u = s + t; let left = left_of(a.st); let m = at_most(left, s);
    assert forall|b: Abs, x: Seq<u8>| b.st is GlobalPalette implies #[trigger] step(cfg, b, x) == step_gpal(b, x) by { reveal(step); }
    if s.len() < left {
        if t.len() == 0 { assert(u =~= s); } else {
            let w = at_most(left, u); let r = w - s.len(); assert(s.take(m) =~= s); assert(r == at_most((left - m) as usize, t)); assert(u.take(w) =~= s + t.take(r));
            assert(a.gpal + u.take(w) =~= (a.gpal + s) + t.take(r)); assert(step(cfg, a, u) == after(m, step(cfg, step(cfg, a, s)->Step_2, t)));
        }
    } else { assert(u.take(m) =~= s.take(m)); assert(at_most(left, u) == m); assert(step(cfg, a, u) == step(cfg, a, s)); }
}
proof fn lemma_ext_lpal(cfg: Cfg, a: Abs, s: Seq<u8>, t: Seq<u8>)
    requires s.len() > 0, a.st is LocalPalette, left_of(a.st) > 0,
    ensures extends(cfg, a, s, t)
{
    let u = s + t; let left = left_of(a.st); let m = at_most(left, s);
    assert forall|b: Abs, x: Seq<u8>| b.st is LocalPalette implies #[trigger] step(cfg, b, x) == step_lpal(b, x) by { reveal(step); }
    if s.len() < left {
        if t.len() == 0 { assert(u =~= s); } else {
            let w = at_most(left, u); let r = w - s.len(); assert(s.take(m) =~= s); assert(r == at_most((left - m) as usize, t)); assert(u.take(w) =~= s + t.take(r));
            let q = a.pic().pal->0; assert(q + u.take(w) =~= (q + s) + t.take(r)); assert(step(cfg, a, u) == after(m, step(cfg, step(cfg, a, s)->Step_2, t)));
        }
    } else { assert(u.take(m) =~= s.take(m)); assert(at_most(left, u) == m); assert(step(cfg, a, u) == step(cfg, a, s)); }
}
#[verifier::spinoff_prover]
proof fn lemma_ext_extdata(cfg: Cfg, a: Abs, s: Seq<u8>, t: Seq<u8>)
    requires s.len() > 0, a.st is ExtensionDataBlock, left_of(a.st) > 0,
    ensures extends(cfg, a, s, t)
{
    let u = s + t; let left = left_of(a.st); let m = at_most(left, s);
    assert forall|b: Abs, x: Seq<u8>| b.st is ExtensionDataBlock implies #[trigger] step(cfg, b, x) == step_extdata(cfg, b, x) by { reveal(step); }
    if s.len() < left {
        if t.len() == 0 { assert(u =~= s); } else {
            let w = at_most(left, u); let r = w - s.len(); assert(s.take(m) =~= s); assert(r == at_most((left - m) as usize, t)); assert(u.take(w) =~= s + t.take(r));
            assert(a.ext + u.take(w) =~= (a.ext + s) + t.take(r)); if within(cfg.limit, (a.ext.len() + m) as nat) { assert(step(cfg, a, u) == after(m, step(cfg, step(cfg, a, s)->Step_2, t))); } else { assert(step(cfg, a, u) == step(cfg, a, s)); }
        }
    } else { assert(u.take(m) =~= s.take(m)); assert(at_most(left, u) == m); assert(step(cfg, a, u) == step(cfg, a, s)); }
}
proof fn lemma_ext_counted(cfg: Cfg, a: Abs, s: Seq<u8>, t: Seq<u8>)
    requires s.len() > 0, a.st is GlobalPalette || a.st is LocalPalette || a.st is ExtensionDataBlock, left_of(a.st) > 0,
    ensures extends(cfg, a, s, t)
{ if a.st is GlobalPalette { lemma_ext_gpal(cfg, a, s, t); } else if a.st is LocalPalette { lemma_ext_lpal(cfg, a, s, t); } else { lemma_ext_extdata(cfg, a, s, t); } }
#[verifier::spinoff_prover]
proof fn lemma_step_good(cfg: Cfg, a: Abs, s: Seq<u8>)
    requires s.len() > 0, !data_state(a.st), awf(a),
    ensures step(cfg, a, s) matches Res::Step(c, e, a1) ==> 0 <= c <= s.len() && (e is Nothing ==> c > 0 || rank(a1.st) < rank(a.st)) && awf(a1),
{ reveal(step); }
pub proof fn lemma_step_ext(cfg: Cfg, a: Abs, s: Seq<u8>, t: Seq<u8>)
    requires s.len() > 0, !data_state(a.st), awf(a),
    ensures step(cfg, a, s) matches Res::Step(c, e, a1) ==> 0 <= c <= s.len() && (e is Nothing ==> c > 0 || rank(a1.st) < rank(a.st)) && awf(a1),
        extends(cfg, a, s, t),
{
    lemma_step_good(cfg, a, s);
    if a.st is Magic { lemma_ext_magic(cfg, a, s, t); } else if a.st is ScreenDescriptor { lemma_ext_screen(cfg, a, s, t); } else if a.st is ImageBlockStart { lemma_ext_image(cfg, a, s, t); }
    else if (a.st is GlobalPalette || a.st is LocalPalette || a.st is ExtensionDataBlock) && left_of(a.st) > 0 { lemma_ext_counted(cfg, a, s, t); }
    else { reveal(step); assert((s + t)[0] == s[0]); if t.len() == 0 { assert(s + t =~= s); } }
}
pub open spec fn nothing(r: Res) -> bool { r matches Res::Step(c, e, a) && e is Nothing }
/// What an `update` reports outside image data does not depend on how the input is divided.
#[verifier::spinoff_prover]
pub proof fn lemma_upd_ext(cfg: Cfg, a: Abs, s: Seq<u8>, t: Seq<u8>)
    requires !data_state(a.st), awf(a),
    ensures upd(cfg, a, s) matches Res::Step(c, e, a1) ==> 0 <= c <= s.len() && awf(a1) && (e is Nothing ==> c == s.len() && !data_state(a1.st)),
        if nothing(upd(cfg, a, s)) { upd(cfg, a, s + t) == after(s.len() as int, upd(cfg, upd(cfg, a, s)->Step_2, t)) } else { upd(cfg, a, s + t) == upd(cfg, a, s) },
    decreases s.len(), rank(a.st)
{
    let u = s + t;
    if s.len() == 0 { assert(u =~= t); }
    else {
        lemma_step_ext(cfg, a, s, t);
        lemma_upd_data(cfg, a, s); lemma_upd_data(cfg, a, u);
        match step(cfg, a, s) {
            Res::Step(c, e, a1) => {
                if e is Nothing {
                    lemma_upd_ext(cfg, a1, s.skip(c), t);
                    assert(u.skip(c) =~= s.skip(c) + t);
                    if step(cfg, a, u) == step(cfg, a, s) {
                    } else {
                        assert(s.skip(c) =~= Seq::empty());
                        lemma_upd_data(cfg, a1, t);
                        match step(cfg, a1, t) { Res::Step(d, f, a2) => { lemma_step_ext(cfg, a1, t, Seq::empty()); lemma_step_ext(cfg, a, u, Seq::empty()); assert(u.skip(c + d) =~= t.skip(d)); } _ => {} }
                    }
                }
            }
            _ => {}
        }
    }
}
/// payload `d` was put into the buffer; `k` bytes of it were kept
pub open spec fn put(d: Seq<u8>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, k: int) -> bool {
    match ob { OutputBuffer::Slice(_) => k == d.len() && k <= ob.room() && nb.cur() =~= d + ob.cur().skip(k), OutputBuffer::Vec(_) => k == d.len() && nb.cur() =~= ob.cur() + d, OutputBuffer::None => k == 0 }
}
/// one step within image data, as part of an `update` that had got to `me`, `wi` at position `pos` of `s0`
#[verifier::spinoff_prover]
pub proof fn lemma_data_step(o: StreamingDecoder, me: StreamingDecoder, n: StreamingDecoder, ob: OutputBuffer<'_>, wi: OutputBuffer<'_>, nb: OutputBuffer<'_>, s0: Seq<u8>, pos: int, p: (usize, Decoded))
    requires data_state(o.state), 0 <= pos < s0.len(), s0.len() <= isize::MAX, p.0 <= s0.len() - pos, me.wf(), ob is Slice == wi is Slice, ob is Vec == wi is Vec, ob.room() == wi.room(), n.cfg() == me.cfg(), me.cfg() == o.cfg(),
        o.state is CopySubBlock ==> n.lzw_reader == me.lzw_reader,
        in_data(o, me, ob, wi, brun(blk_of(o.state), s0.take(pos)), s0.skip(pos)),
        me.state is CopySubBlock ==> copy_step(me, n, s0.skip(pos), wi, nb, Ok(p)),
        me.state is DecodeSubBlock ==> decode_step(me, n, s0.skip(pos), wi, nb, p),
        me.state is FrameDecoded ==> follows(step_done(me.abs(), s0.skip(pos)), Ok(p), n.abs()) && n.lzw_reader == me.lzw_reader && nb == wi,
    ensures
        ev_of(p.1) is Nothing ==> in_data(o, n, ob, nb, brun(blk_of(o.state), s0.take(pos + p.0)), s0.skip(pos + p.0)),
        !(ev_of(p.1) is Nothing) || pos + p.0 == s0.len() ==> data_upd(o, n, s0, ob, nb, ((pos + p.0) as usize, p.1)),
{
    let s = s0.skip(pos); let x = s0.take(pos); let b0 = blk_of(o.state); let b = brun(b0, x); let y = s.take(p.0 as int);
    assert(s0.take(pos + p.0) =~= x + y); lemma_brun_add(b0, x, y);
    let by = brun(b, y);
    if p.0 == 0 { assert(y =~= Seq::empty()); }
    if p.0 == 1 { assert(y =~= seq![s[0]]); lemma_brun_one(b, s[0]); }
    if y.len() <= b.left { lemma_brun_data(b, y); }
    let (lo, lm, ln) = (o.lzw_reader.lz(), me.lzw_reader.lz(), n.lzw_reader.lz());
    let d = if b.left > 0 { y } else { Seq::empty() };
    assert(s0.skip(pos).skip(p.0 as int) =~= s0.skip(pos + p.0));
    if me.state is FrameDecoded {
        assert(by.end);
    } else {
        let m = at_most(left_of(me.state), s);
        assert(b.left > 0 ==> s.take(m).take(p.0 as int) =~= y);
        assert(!by.end && by.left <= 255);
        assert(by.out =~= b.out + d);
        if me.state is DecodeSubBlock && tracked(o.lzw_reader, ob) {
            if ob is None { assert(d =~= if b.left == 0 && s[0] != 0 { Seq::<u8>::empty() } else { s.take(m) }); assert(lm.fed + Seq::<u8>::empty() =~= lm.fed); if b.left == 0 && s[0] != 0 { assert(feeds(lm, ln, d)); } else { assert(discarded(me.lzw_reader, n.lzw_reader, s.take(m))); } }
            else if b.left > 0 && !lm.ended { let c = fed_by(me.lzw_reader, n.lzw_reader); if c == 0 && made_by(me.lzw_reader, n.lzw_reader) == 0 { assert(ln.ended); assert(s.take(m).take(0) =~= Seq::empty()); assert(ln.fed =~= lm.fed); } else { assert(s.take(m).take(c) =~= y); } }
            if b.left == 0 && s[0] == 0 { assert(s.take(m) =~= Seq::empty()); assert(s.take(m).take(0) =~= Seq::empty()); assert(lm.fed + Seq::empty() =~= lm.fed); }
            assert(feeds(lm, ln, d));
            lemma_feeds(lo, lm, ln, b.out, d);
        }
        if ev_of(p.1) is Nothing { if me.state is CopySubBlock { assert(b.left == 0); } if n.state is FrameDecoded { if me.state is DecodeSubBlock && tracked(o.lzw_reader, ob) { if ob is Slice { assert(ln.made =~= lo.made); } assert(drained(ln)); } assert(in_data(o, n, ob, nb, by, s0.skip(pos + p.0))); } else { assert(same(abs_of(o.abs(), by), n.abs())); assert(in_data(o, n, ob, nb, by, s0.skip(pos + p.0))); } }
    }
    if !(ev_of(p.1) is Nothing) || pos + p.0 == s0.len() {
        let e = (pos + p.0) as usize; assert(e == pos + p.0); let bb = brun(blk_of(o.state), s0.take(e as int)); assert(bb == by);
        assert(same(abs_of(o.abs(), bb), n.abs())); assert(ev_of(p.1) is DataEnd <==> bb.end); assert(bb.end ==> s0[e - 1] == 0); assert(bb.left <= 255);
        if o.state is CopySubBlock { if me.state is CopySubBlock && b.left > 0 { assert(b.out + d =~= d); } } else { if tracked(o.lzw_reader, ob) && me.state is DecodeSubBlock { assert(feeds(lo, ln, bb.out)); } }
    }
}
pub proof fn lemma_feeds(o: Lz, m: Lz, n: Lz, q: Seq<u8>, d: Seq<u8>)
    requires feeds(o, m, q), feeds(m, n, d),
    ensures feeds(o, n, q + d)
{
    assert(o.fed + (q + d) =~= (o.fed + q) + d);
    if !o.ended { if !m.ended { assert(m.fed =~= o.fed + q); } else { assert(n.fed =~= (o.fed + q).take(n.fed.len() as int)); assert(n.fed =~= (o.fed + (q + d)).take(n.fed.len() as int)); } }
}
/// the first byte is one this state is only entered with
pub open spec fn fits(st: State, s: Seq<u8>) -> bool { s.len() > 0 && (st is ApplicationExtension || st is FrameDecoded) ==> s[0] == 0 }
pub open spec fn rank(st: State) -> nat { match st { State::BlockEnd => 3, State::BlockStart(_) => 2, State::ExtensionBlockStart => 2, State::CopySubBlock(_) => 2, State::DecodeSubBlock(_) => 2, _ => 0 } }
pub open spec fn copy_step(o: StreamingDecoder, n: StreamingDecoder, s: Seq<u8>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, r: Result<(usize, Decoded), DecodingError>) -> bool {
    let left = left_of(o.state); let m = at_most(left, s);
    match r {
        Ok(p) => if left > 0 {
                ev_of(p.1) is Copied && copied(s.take(m), ob, nb, p.0 as int, ev_of(p.1)->Copied_0) && same((Abs { st: State::CopySubBlock((left - p.0) as usize), ..o.abs() }), n.abs())
                    && (ob is Vec ==> within(o.memory_limit, nb.cur().len()))
            } else {
                nb == ob && ev_of(p.1) is Nothing && (if s[0] != 0 { p.0 == 1 && same((Abs { st: State::CopySubBlock(s[0] as usize), ..o.abs() }), n.abs()) } else { p.0 == 0 && same((Abs { st: State::FrameDecoded, ..o.abs() }), n.abs()) })
            },
        Err(e) => ob is Vec && nb.cur() == ob.cur() && (oom(e) || !within(o.memory_limit, (ob.cur().len() + m) as nat)),
    }
}
/// LZW part of a step: `c` bytes fed, `k` bytes produced
pub open spec fn fed_by(o: LzwReader, n: LzwReader) -> int { n.lz().fed.len() - o.lz().fed.len() }
pub open spec fn made_by(o: LzwReader, n: LzwReader) -> int { n.lz().made.len() - o.lz().made.len() }
pub open spec fn no_end_code(o: LzwReader) -> bool { o.check_for_end_code && (lz_ok(o.lz()) ==> !lzw_done(o.lz().size, o.lz().fed)) }
pub open spec fn discarded(o: LzwReader, n: LzwReader, data: Seq<u8>) -> bool {
    if o.check_for_end_code { (lz_ok(o.lz()) ==> lz_ok(n.lz())) && n.lz().size == o.lz().size && (o.lz().ended ==> n == o) && o.lz().made.is_prefix_of(n.lz().made) && o.lz().fed.is_prefix_of(n.lz().fed) && n.lz().fed.is_prefix_of(o.lz().fed + data) && (n.lz().ended || (data.len() > 0 && n.lz().fed == o.lz().fed + data)) } else { n == o }
}
pub open spec fn decode_step(o: StreamingDecoder, n: StreamingDecoder, s: Seq<u8>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, p: (usize, Decoded)) -> bool {
    let left = left_of(o.state); let m = at_most(left, s); let ev = ev_of(p.1); let (lo, ln) = (o.lzw_reader, n.lzw_reader);
    let k = made_by(lo, ln);
    let st = if left > 0 { State::DecodeSubBlock((left - p.0) as usize) } else if s[0] != 0 { State::DecodeSubBlock(s[0] as usize) } else if ev is Bytes { State::DecodeSubBlock(0) } else { State::FrameDecoded };
    &&& same(Abs { st, ..o.abs() }, n.abs()) && ln.decoder is Some
    &&& if left == 0 && s[0] != 0 { p.0 == 1 && ev is Nothing && ln == lo && nb == ob }
        else if ob is None || left > 0 && lo.lz().ended { p.0 == m && ev is Nothing && nb == ob && discarded(lo, ln, s.take(m)) }
        else {
            let c = fed_by(lo, ln);
            &&& decoded(lo, ln, s.take(m), ob, nb, (c as usize, k as usize)) && 0 <= c && 0 <= k
            // bytes the decoder cannot make anything of are skipped
            &&& p.0 == if c == 0 && k == 0 { m } else { c }
            &&& ev == if k > 0 { Ev::Bytes(k) } else { Ev::Nothing }
        }
}
pub open spec fn decode_err(o: StreamingDecoder, s: Seq<u8>, ob: OutputBuffer<'_>) -> bool {
    let left = left_of(o.state); let m = at_most(left, s);
    ob is Vec || !o.lzw_reader.lz().ended && (ob is None ==> o.lzw_reader.check_for_end_code) && (lzw_bad(o.lzw_reader.lz().size, o.lzw_reader.lz().fed + s.take(m)) || left == 0 && s[0] == 0 && no_end_code(o.lzw_reader))
}
/// what is wrong with the image data `q`, read from `o` on into `ob`
pub open spec fn spoilt(o: StreamingDecoder, q: Blk, ob: OutputBuffer<'_>) -> bool {
    if o.state is CopySubBlock { ob is Vec && !within(o.memory_limit, (ob.cur().len() + q.out.len()) as nat) }
    else { ob is Vec || ob is Slice && ob.room() == 0 || lzw_spoilt(o.lzw_reader, q, ob is None) }
}
/// the LZW stream has an invalid code, or no end code where one is asked for; data that is only skipped need not be valid
pub open spec fn lzw_spoilt(l: LzwReader, q: Blk, skipped: bool) -> bool {
    &&& !l.lz().ended && (skipped ==> l.check_for_end_code)
    &&& lzw_bad(l.lz().size, l.lz().fed + q.out) || l.check_for_end_code && q.end && (lz_ok(l.lz()) ==> !lzw_done(l.lz().size, l.lz().fed + q.out))
}
pub proof fn lemma_spoilt(o: StreamingDecoder, m: StreamingDecoder, b: Blk, q: Blk, r: Blk, ob: OutputBuffer<'_>, wb: OutputBuffer<'_>)
    requires data_state(o.state), o.state is CopySubBlock == m.state is CopySubBlock, m.cfg() == o.cfg(), ob is Slice == wb is Slice, ob is Vec == wb is Vec, ob.room() == wb.room(),
        o.state is CopySubBlock ==> wb == ob,
        o.state is DecodeSubBlock && tracked(o.lzw_reader, ob) ==> feeds(o.lzw_reader.lz(), m.lzw_reader.lz(), b.out),
        spoilt(m, q, wb), r.out == b.out + q.out, q.end ==> r.end,
    ensures spoilt(o, r, ob)
{
    let l = o.lzw_reader;
    if o.state is DecodeSubBlock && tracked(l, ob) { assert((l.lz().fed + b.out) + q.out =~= l.lz().fed + (b.out + q.out)); if !m.lzw_reader.lz().ended { assert(m.lzw_reader.lz().fed =~= l.lz().fed + b.out); } }
}
/// the image data `s`, from within a sub-block or between two on: what is left of the sub-block first
pub proof fn lemma_brun_first(e: Blk, s: Seq<u8>, m: int) -> (rest: Seq<u8>)
    requires e.out.len() == 0, !e.end, s.len() > 0, m == if s.len() < e.left { s.len() as int } else { e.left as int },
    ensures brun(e, s).out == s.take(m) + rest, e.left == 0 && s[0] == 0 ==> brun(e, s).end && brun(e, s).out.len() == 0
{
    let (x, y) = (s.take(m), s.skip(m));
    assert(s =~= x + y); lemma_brun_add(e, x, y); lemma_brun_data(e, x); lemma_brun_out(brun(e, x), y);
    let rest = brun(Blk { out: Seq::empty(), ..brun(e, x) }, y).out;
    assert(e.out + x =~= x); assert(brun(e, s).out =~= x + rest);
    if e.left == 0 && s[0] == 0 {
        assert(s =~= seq![s[0]] + s.skip(1)); lemma_brun_add(e, seq![s[0]], s.skip(1)); lemma_brun_one(e, s[0]); lemma_brun_stop(bstep(e, s[0]), s.skip(1));
        assert(brun(e, s).out =~= Seq::empty());
    }
    rest
}
/// an error of decoding the next piece is one of all the data
pub proof fn lemma_piece_spoilt(me: StreamingDecoder, s: Seq<u8>, q: Blk, rest: Seq<u8>, wi: OutputBuffer<'_>)
    requires s.len() > 0, me.state is CopySubBlock && wi is Vec && !within(me.memory_limit, (wi.cur().len() + at_most(left_of(me.state), s)) as nat) || me.state is DecodeSubBlock && decode_err(me, s, wi), q.out == s.take(at_most(left_of(me.state), s)) + rest, left_of(me.state) == 0 && s[0] == 0 ==> q.end && q.out.len() == 0,
    ensures spoilt(me, q, wi)
{
    let l = me.lzw_reader.lz(); let x = s.take(at_most(left_of(me.state), s));
    if me.state is DecodeSubBlock { axiom_lzw_bad(l.size, l.fed + x, rest); }
    assert((l.fed + x) + rest =~= l.fed + q.out);
    if left_of(me.state) == 0 && s[0] == 0 { assert(l.fed + q.out =~= l.fed); }
}
/// an error of one step within image data, as part of an `update` that had got to `me`, `wi` at position `pos` of `s0`
#[verifier::spinoff_prover]
pub proof fn lemma_data_err(o: StreamingDecoder, me: StreamingDecoder, ob: OutputBuffer<'_>, wi: OutputBuffer<'_>, s0: Seq<u8>, pos: int)
    requires data_state(o.state), 0 <= pos < s0.len(), me.wf(), ob is Slice == wi is Slice, ob is Vec == wi is Vec, ob.room() == wi.room(), me.cfg() == o.cfg(),
        in_data(o, me, ob, wi, brun(blk_of(o.state), s0.take(pos)), s0.skip(pos)),
    ensures ({ let s = s0.skip(pos); let m = at_most(left_of(me.state), s);
        (me.state is FrameDecoded ==> !(step(me.cfg(), me.abs(), s) is Err)) && ((me.state is CopySubBlock && wi is Vec && !within(me.memory_limit, (wi.cur().len() + m) as nat) || me.state is DecodeSubBlock && decode_err(me, s, wi)) ==> spoilt(o, brun(blk_of(o.state), s0), ob)) })
{
    hide(spoilt); hide(decode_err);
    let s = s0.skip(pos); let m = at_most(left_of(me.state), s); let b0 = blk_of(o.state); let b = brun(b0, s0.take(pos));
    assert(s0 =~= s0.take(pos) + s); lemma_brun_add(b0, s0.take(pos), s);
    if data_state(me.state) {
        let e = Blk { out: Seq::empty(), ..b }; let q = brun(e, s);
        assert(blk_of(me.state) == e);
        lemma_brun_out(b, s);
        let rest = lemma_brun_first(e, s, m);
        if me.state is CopySubBlock && wi is Vec && !within(me.memory_limit, (wi.cur().len() + m) as nat) || me.state is DecodeSubBlock && decode_err(me, s, wi) { lemma_piece_spoilt(me, s, q, rest, wi); }
        if spoilt(me, q, wi) { lemma_spoilt(o, me, b, q, brun(b0, s0), ob, wi); }
    } else { reveal(step); }
}
/// once the terminator was seen there is nothing more to the image data
pub proof fn lemma_brun_stop(b: Blk, x: Seq<u8>)
    ensures b.end ==> brun(b, x) == (Blk { left: b.left + x.len(), ..b })
    decreases x.len()
{ if x.len() > 0 { lemma_brun_stop(b, x.drop_last()); } }
impl StreamingDecoder {
    pub open spec fn cfg(self) -> Cfg { Cfg { skip: self.skip_frame_decoding, frames: self.check_frame_consistency, unknown: self.allow_unknown_blocks, limit: self.memory_limit, end: self.lzw_reader.check_for_end_code } }
    pub open spec fn abs(self) -> Abs {
        Abs { st: self.state, has: self.internal_buffer@.take(self.unused_internal_buffer_len as int), ver: self.version, w: self.width, h: self.height, gpal: self.global_color_table@,
            id: self.ext.id.0, ext: self.ext.data@, ext_end: self.ext.is_block_end, cur: match self.current { Some(f) => Some(pic_of(f)), None => None }, started: self.header_end_reached, min: self.lzw_reader.min_code_size }
    }
    pub open spec fn same_but_current(self, o: StreamingDecoder) -> bool { self == (StreamingDecoder { current: self.current, ..o }) }
    /// no pixels in the frame being read
    pub open spec fn clean(self) -> bool { self.current matches Some(f) ==> f.buffer is Borrowed }
    pub open spec fn wf(self) -> bool {
        &&& self.lzw_reader.wf() && self.clean()
        &&& if need(self.state) > 0 { self.unused_internal_buffer_len < need(self.state) } else { self.unused_internal_buffer_len == 0 }
        &&& self.state is Magic || self.state is ScreenDescriptor ==> self.global_color_table@.len() == 0
        &&& self.state matches State::GlobalPalette(left) ==> self.global_color_table@.len() + left <= vec_cap(self.global_color_table)
        &&& self.state is ImageBlockStart ==> self.current is Some
        &&& self.state matches State::LocalPalette(left) ==> self.current is Some && (left > 0 ==> self.current->0.palette is Some && self.current->0.palette->0@.len() + left <= vec_cap(self.current->0.palette->0))
        &&& self.state is LzwInit ==> self.current is Some
        &&& !(self.state is LocalPalette || self.state is LzwInit || self.state is DecodeSubBlock || self.state is CopySubBlock || self.state is FrameDecoded) ==> (self.current matches Some(c) ==> (c.palette matches Some(p) ==> p@.len() == 0))
        &&& self.state is DecodeSubBlock ==> !self.skip_frame_decoding && self.lzw_reader.decoder is Some
        &&& self.state is CopySubBlock ==> self.skip_frame_decoding
        &&& data_state(self.state) ==> left_of(self.state) <= 255
    }
}
pub proof fn lemma_control_bits()
    ensures forall|c: u8| (#[trigger] (c & 0b10u8) != 0) == ((c / 2) % 2 == 1), forall|c: u8| #[trigger] ((c & 0b11100u8) >> 2u8) == (c / 4) % 8, forall|c: u8| (#[trigger] (c & 1u8) != 0) == (c % 2 == 1),
        forall|c: u8| #[trigger] ((c >> 2u8) & 7u8) == (c / 4) % 8, forall|c: u8| #[trigger] (c & 0b10u8) == 0 || c & 0b10u8 == 2, forall|c: u8| #[trigger] (c & 1u8) == 0 || c & 1u8 == 1,
{
    assert(forall|c: u8| (#[trigger] (c & 0b10u8) != 0) == ((c / 2) % 2 == 1)) by (bit_vector);
    assert(forall|c: u8| #[trigger] ((c & 0b11100u8) >> 2u8) == (c / 4) % 8) by (bit_vector);
    assert(forall|c: u8| (#[trigger] (c & 1u8) != 0) == (c % 2 == 1)) by (bit_vector);
    assert(forall|c: u8| #[trigger] ((c >> 2u8) & 7u8) == (c / 4) % 8) by (bit_vector);
    assert(forall|c: u8| #[trigger] (c & 0b10u8) == 0 || c & 0b10u8 == 2) by (bit_vector);
    assert(forall|c: u8| #[trigger] (c & 1u8) == 0 || c & 1u8 == 1) by (bit_vector);
}
pub proof fn lemma_flag_bits()
    ensures forall|c: u8| (#[trigger] (c & 0x80u8) != 0) == (c >= 128), forall|c: u8| (#[trigger] (c & 0x40u8) != 0) == ((c / 64) % 2 == 1), forall|c: u8| #[trigger] (c & 7u8) == c % 8,
        forall|c: u8| #[trigger] (c & 0x80u8) == 0 || c & 0x80u8 == 0x80, forall|c: u8| #[trigger] (c & 0x40u8) == 0 || c & 0x40u8 == 0x40,
        forall|c: u8| #[trigger] (c >> 7u8) == c / 128, forall|c: u8| #[trigger] ((c >> 6u8) & 1u8) == (c / 64) % 2,
        forall|t: u8| t <= 7 ==> #[trigger] table_entries(t) == two_to(t + 1),
        forall|s: u8| s <= 8 ==> #[trigger] (1usize << s) == two_to(s as int), forall|s: usize| s <= 8 ==> #[trigger] (1usize << s) == two_to(s as int),
        forall|s: u32| s <= 8 ==> #[trigger] (1usize << s) == two_to(s as int), forall|s: i32| 0 <= s <= 8 ==> #[trigger] (1usize << s) == two_to(s as int),
        forall|s: u8| s <= 7 ==> #[trigger] (2usize << s) == 2 * two_to(s as int), forall|s: usize| s <= 7 ==> #[trigger] (2usize << s) == 2 * two_to(s as int),
        forall|s: u32| s <= 7 ==> #[trigger] (2usize << s) == 2 * two_to(s as int),
        forall|s: u8| s <= 8 ==> #[trigger] (3usize << s) == 3 * two_to(s as int), forall|s: usize| s <= 8 ==> #[trigger] (3usize << s) == 3 * two_to(s as int),
        forall|a: u8, b: u8| #[trigger] ((a as u16) | ((b as u16) << 8)) == (a + 256 * b) as u16, forall|a: u8, b: u8| #[trigger] (((b as u16) << 8) | (a as u16)) == (a + 256 * b) as u16,
{
    lemma_shifts();
    assert(forall|c: u8| (#[trigger] (c & 0x80u8) != 0) == (c >= 128)) by (bit_vector);
    assert(forall|c: u8| (#[trigger] (c & 0x40u8) != 0) == ((c / 64) % 2 == 1)) by (bit_vector);
    assert(forall|c: u8| #[trigger] (c & 7u8) == c % 8) by (bit_vector);
    assert(forall|c: u8| #[trigger] (c & 0x80u8) == 0 || c & 0x80u8 == 0x80) by (bit_vector);
    assert(forall|c: u8| #[trigger] (c & 0x40u8) == 0 || c & 0x40u8 == 0x40) by (bit_vector);
    assert(forall|c: u8| #[trigger] (c >> 7u8) == c / 128) by (bit_vector);
    assert(forall|c: u8| #[trigger] ((c >> 6u8) & 1u8) == (c / 64) % 2) by (bit_vector);
    assert(forall|a: u8, b: u8| #[trigger] ((a as u16) | ((b as u16) << 8)) == add(a as u16, mul(256, b as u16))) by (bit_vector);
    assert(forall|a: u8, b: u8| #[trigger] (((b as u16) << 8) | (a as u16)) == add(a as u16, mul(256, b as u16))) by (bit_vector);
}
pub open spec fn oom(e: DecodingError) -> bool { e == DecodingError::Io(err_of_kind(io::ErrorKind::OutOfMemory)) }
/// `decode_bytes` took `p.0` bytes of `data` and put `p.1` bytes at the start of the buffer
pub open spec fn decoded(o: LzwReader, n: LzwReader, data: Seq<u8>, ob: OutputBuffer<'_>, nb: OutputBuffer<'_>, p: (usize, usize)) -> bool {
    let (c, k) = (p.0 as int, p.1 as int);
    &&& !(ob is Vec) && o.decoder is Some && c <= data.len() && k <= ob.room()
    &&& n.lz().size == o.lz().size && n.lz().fed == o.lz().fed + data.take(c) && n.lz().made == o.lz().made + nb.cur().take(k)
    &&& lz_ok(o.lz()) ==> lz_ok(n.lz())
    &&& o.lz().ended ==> c == 0 && k == 0 && n.lz().ended
    // it only stops at the end code, at a full buffer, or when everything that can be decoded has been
    &&& n.lz().ended || k == ob.room() || (c == data.len() && (lz_ok(o.lz()) ==> n.lz().made == lzw_out(n.lz().size, n.lz().fed)))
    &&& o.check_for_end_code && ob.room() > 0 ==> c > 0 || k > 0 || n.lz().ended
}
}
