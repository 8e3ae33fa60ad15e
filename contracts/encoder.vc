//// file traits.rs
//// type WriteBytesExt
//// fn WriteBytesExt::write_le
//// fn <W as WriteBytesExt<u8>>::write_le props=C18,C19,C20,C21,C22,C24,C25
#[verus_spec(r =>
    ensures
        wrote((*old(self)).written(), (*final(self)).written(), seq![n], r is Ok),
        r is Err ==> (*old(self)).room() < 1,
        r is Ok ==> (*final(self)).room() + 1 >= (*old(self)).room(),
)]
//// fn <W as WriteBytesExt<u16>>::write_le props=C18,C19,C21,C24,C25
#[verus_spec(r =>
    ensures
        wrote((*old(self)).written(), (*final(self)).written(), le16(n), r is Ok),
        r is Err ==> (*old(self)).room() < 2,
        r is Ok ==> (*final(self)).room() + 2 >= (*old(self)).room(),
)]
//// start
proof!{ assert((n as u8) as int == n % 256 && ((n >> 8) as u8) as int == n / 256) by (bit_vector); }
//// impl <W as WriteBytesExt<u8>>
//// impl <W as WriteBytesExt<u16>>
//// unverified <W as WriteBytesExt<u32>>::write_le -- not used by the crate
//// unverified <W as WriteBytesExt<u64>>::write_le -- not used by the crate
//// tail
#[allow(unused_imports)] use crate::vspec::*;
verus!{ broadcast use {lemma_wrote_base, lemma_wrote_trans, lemma_wrote_short, lemma_wrote_tail, lemma_sub_blocks_len}; }
//// file encoder.rs
//// type EncodingFormatError
//// type EncodingError
//// type Repeat
//// fn <Repeat as Default>::default props=C07
#[verus_spec(r => ensures r == Repeat::Finite(0))]
//// type ExtensionData
//// type Encoder
//// type Buf
//// impl <EncodingError as From<io::Error>>
//// impl <EncodingError as From<EncodingFormatError>>
//// fn <EncodingError as From<io::Error>>::from
//// fn <EncodingError as From<EncodingFormatError>>::from
//// fn ExtensionData::new_control_ext props=C19,C25
#[verus_spec(r => ensures r == (ExtensionData::Control { flags: control_flags(dispose, needs_user_input, trns), delay, trns: match trns { Some(t) => t, None => 0 } }))]
//// start
proof!{ lemma_or_bits(); assert(forall|a: u8, u: u8, d: u8| a <= 1 && u <= 1 && d <= 3 ==> #[trigger] ((a | (u << 1)) | (d << 2)) == 4 * d + 2 * u + a) by (bit_vector); assert(0u8 | 1u8 == 1u8) by (bit_vector); }
//// impl <Buf as Write>
//// fn <Buf as Write>::write props=C18,C19,C21,C24,C25
//// start
proof!{ use_type_invariant(&*self); axiom_slice_len(buf); }
//// fn <Buf as Write>::flush
//// fn tmp_buf props=C18,C19,C21,C24,C25
#[verus_spec(r => ensures r.written() =~= Seq::<u8>::empty(), r.room() == N)]
//// start
proof!{ axiom_arr_len::<N>(); }
//// fn Buf::finish props=C18,C19,C21,C24,C25
#[verus_spec(r =>
    requires self.written().len() == N,
    ensures
        wrote((*old(w)).written(), (*final(w)).written(), self.written(), r is Ok),
        r is Err ==> (*old(w)).room() < self.written().len(),
        r is Ok ==> (*final(w)).room() + self.written().len() >= (*old(w)).room(),
)]
//// start
proof!{ use_type_invariant(self); assert(self.written() =~= self.buf@); }
//// rewrite mut w: impl Write => w: &mut impl Write
//// fn flag_size props=C18,C19,C25
#[verus_spec(r => ensures r == table_flag(size as nat), r <= 7)]
//// fn Encoder::writer props=C18,C19,C20,C21,C22,C23,C24,C25
#[verus_spec(r => ensures match r {
    Ok(w) => old(self).w == Some(*w) && final(self).w == Some(*final(w)) && final(self).same_cfg(*old(self)),
    Err(_) => *final(self) == *old(self) && old(self).w is None })]
//// fn Encoder::check_color_table props=C18,C19,C23,C25
#[verus_spec(r => ensures match r {
    Ok((p, pad, size)) => colors(table@) <= 256 && p@ == table@.take(3 * colors(table@) as int) && size == table_flag(colors(table@)) && pad == table_entries(size) - colors(table@),
    Err(e) => colors(table@) > 256 && e == EncodingError::Format(EncodingFormatError::TooManyColors) })]
//// start
proof!{ lemma_shl2(); }
//// fn Encoder::write_color_table props=C18,C19,C24,C25
#[verus_spec(r =>
    ensures
        wrote((*old(writer)).written(), (*final(writer)).written(), table@ + zeros((3 * padding) as nat), r is Ok),
        r is Err ==> (*old(writer)).room() < table@.len() + 3 * padding,
        r is Ok ==> (*final(writer)).room() + table@.len() + 3 * padding >= (*old(writer)).room(),
)]
//// loop 0 for
#[verus_spec(i =>
    invariant
        i.index@ <= padding,
        wseq((*old(writer)).written(), (*writer).written(), table@ + zeros((3 * i.index@) as nat), true),
        (*writer).room() + table@.len() + 3 * i.index@ >= (*old(writer)).room(),
)]
//// fn Encoder::write_screen_desc props=C18,C24,C25
#[verus_spec(r =>
    requires old(self).open(),
    ensures
        final(self).open() && final(self).same_cfg(*old(self)),
        wrote(old(self).out(), final(self).out(), screen_bytes(old(self).width, old(self).height, flags), r is Ok),
        r is Err ==> old(self).out_room() < 13,
        r is Ok ==> final(self).out_room() + 13 >= old(self).out_room(),
)]
//// at tmp.finish
proof!{ let x = screen_bytes(self.width, self.height, flags); assert(tmp.written().len() == 13); assert(tmp.written().take(6) =~= x.take(6)); assert(tmp.written().skip(6) =~= x.skip(6)); }
//// fn Encoder::write_encoded_image_block props=C20,C24,C25
#[verus_spec(r =>
    ensures
        wrote((*old(writer)).written(), (*final(writer)).written(), image_block_bytes(data_with_min_code_size@), r is Ok),
        r is Err ==> (*old(writer)).room() < image_block_bytes(data_with_min_code_size@).len(),
        r is Ok ==> (*final(writer)).room() + image_block_bytes(data_with_min_code_size@).len() >= (*old(writer)).room(),
)]
//// loop 0 for desugar
#[verus_spec(
    invariant
        ce_size(iter) == 255,
        (*writer).written().len() >= (*old(writer)).written().len(),
        (*writer).written() + sub_blocks(ce_rest(iter)) =~= (*old(writer)).written() + image_block_bytes(data_with_min_code_size@),
        (*writer).written().len() + sub_blocks(ce_rest(iter)).len() == (*old(writer)).written().len() + image_block_bytes(data_with_min_code_size@).len(),
        (*writer).room() + (*writer).written().len() >= (*old(writer)).room() + (*old(writer)).written().len(),
    ensures
        ce_rest(iter).len() < 255,
    decreases ce_rest(iter).len(),
)]
//// afterloop 0
proof!{ let rest = ce_rest(iter); assert(rest.skip(rest.len() - rest.len() % 255) =~= rest); }
//// fn Encoder::write_global_palette props=C18,C24,C25
#[verus_spec(r =>
    requires self.open(), self.out().len() == 0,
    ensures match r {
        Ok(e) => colors(palette@) <= 256 && e.open() && e.screen() == self.screen() && e.has_global() == (colors(palette@) > 0)
            && e.out() =~= header_bytes(self.width, self.height, palette@) && e.out_room() + header_bytes(self.width, self.height, palette@).len() >= self.out_room(),
        Err(_) => colors(palette@) > 256 || self.out_room() < header_bytes(self.width, self.height, palette@).len(),
    },
)]
//// start
proof!{ assert(forall|x: u8, y: u8| #[trigger] (x | y) == y | x) by (bit_vector); assert(0u8 | 128u8 == 128u8) by (bit_vector); assert(forall|t: u8| t <= 7 ==> #[trigger] ((128u8 | t) | (t << 4)) == 128 + 17 * t) by (bit_vector); }
//// fn Encoder::new props=C18,C24,C25
#[verus_spec(r =>
    requires w.written().len() == 0,
    ensures match r {
        Ok(e) => colors(global_palette@) <= 256 && e.open() && e.has_global() == (colors(global_palette@) > 0)
            && e.out() =~= header_bytes(width, height, global_palette@) && e.out_room() + header_bytes(width, height, global_palette@).len() >= w.room(),
        Err(_) => colors(global_palette@) > 256 || w.room() < header_bytes(width, height, global_palette@).len(),
    },
)]
//// fn Encoder::set_repeat props=C21,C22,C24,C25
#[verus_spec(r =>
    requires old(self).open(),
    ensures
        final(self).open() && final(self).same_cfg(*old(self)),
        wrote(old(self).out(), final(self).out(), ext_bytes(ExtensionData::Repetitions(repeat)), r is Ok),
        r is Err ==> old(self).out_room() < ext_bytes(ExtensionData::Repetitions(repeat)).len(),
        r is Ok ==> final(self).out_room() + ext_bytes(ExtensionData::Repetitions(repeat)).len() >= old(self).out_room(),
)]
//// fn Encoder::write_extension props=C19,C21,C22,C24,C25
#[verifier::rlimit(100)]
#[verus_spec(r =>
    requires old(self).open(),
    ensures
        final(self).open() && final(self).same_cfg(*old(self)),
        wrote(old(self).out(), final(self).out(), ext_bytes(extension), r is Ok),
        r is Err ==> old(self).out_room() < ext_bytes(extension).len(),
        r is Ok ==> final(self).out_room() + ext_bytes(extension).len() >= old(self).out_room(),
)]
//// at tmp.finish(
proof!{ let x = ext_bytes(extension); assert(tmp.written().len() == x.len() - 2); assert(tmp.written() =~= x.subrange(1, x.len() - 1)); }
//// fn Encoder::write_raw_extension props=C21,C22,C24
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
#[verus_spec(r =>
    requires old(self).open(),
    ensures
        final(self).open() && final(self).same_cfg(*old(self)),
        wrote(old(self).out(), final(self).out(), raw_ext_bytes(func.0, slices(data@)), r is Ok),
        r is Err ==> old(self).out_room() < raw_ext_bytes(func.0, slices(data@)).len(),
        r is Ok ==> final(self).out_room() + raw_ext_bytes(func.0, slices(data@)).len() >= old(self).out_room(),
)]
//// at writer.write_le(Block
proof_decl!{ let ghost fw = *final(writer); }
//// at writer.write_le(func.0)
proof!{ assert(data@.skip(0) =~= data@); }
//// loop 0 for
#[verus_spec(it =>
    invariant
        *final(writer) == fw,
        it.index@ <= it.seq().len(), it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *it.seq()[i] == data@[i],
        (*writer).written().len() >= old(self).out().len(),
        (*writer).written() + raw_ext_tail(slices(data@.skip(it.index@ as int))) =~= old(self).out() + raw_ext_bytes(func.0, slices(data@)),
        (*writer).written().len() + raw_ext_tail(slices(data@.skip(it.index@ as int))).len() == old(self).out().len() + raw_ext_bytes(func.0, slices(data@)).len(),
        (*writer).room() + (*writer).written().len() >= old(self).out_room() + old(self).out().len(),
)]
//// loopstart 0
proof!{ let rest = slices(data@.skip(it.index@ as int)); assert(rest[0] == block@); assert(rest.skip(1) =~= slices(data@.skip(it.index@ + 1))); }
//// loop 1 for desugar
#[verus_spec(
    invariant
        *final(writer) == fw,
        ch_size(__it1) == 255,
        (*writer).written().len() >= old(self).out().len(),
        (*writer).written() + (chunked(ch_rest(__it1)) + raw_ext_tail(slices(data@.skip(it.index@ + 1)))) =~= old(self).out() + raw_ext_bytes(func.0, slices(data@)),
        (*writer).written().len() + (chunked(ch_rest(__it1)) + raw_ext_tail(slices(data@.skip(it.index@ + 1)))).len() == old(self).out().len() + raw_ext_bytes(func.0, slices(data@)).len(),
        (*writer).room() + (*writer).written().len() >= old(self).out_room() + old(self).out().len(),
    decreases ch_rest(__it1).len()
)]
//// fn Encoder::write_frame props=C19,C20,C22,C23,C24,C25
#[verus_spec(r =>
    requires
        old(self).open(),
        (frame.width > 0 && frame.height > 0) || cow_bytes(frame.buffer).len() == 0,
    ensures
        final(self).open() && final(self).same_cfg(*old(self)),
        frame.width * frame.height > cow_bytes(frame.buffer).len() ==> r is Err && final(self).out() == old(self).out(),
        frame_rejected(*frame, old(self).has_global()) ==> r is Err && wrote(old(self).out(), final(self).out(), frame_control(*frame), false),
        !(frame.width * frame.height > cow_bytes(frame.buffer).len()) && !frame_rejected(*frame, old(self).has_global()) ==>
            frame_outcome(*old(self), *final(self), frame_bytes(*frame, lzw_image_data(cow_bytes(frame.buffer))), r),
)]
//// start
proof!{ assert(frame.width * frame.height <= 65535 * 65535) by (nonlinear_arith) requires frame.width <= 65535, frame.height <= 65535; }
//// fn Encoder::write_frame_header props=C19,C22,C23,C24,C25
#[verus_spec(r =>
    requires old(self).open(),
    ensures
        final(self).open() && final(self).same_cfg(*old(self)),
        frame_rejected(*frame, old(self).has_global()) ==> r is Err && wrote(old(self).out(), final(self).out(), frame_control(*frame), false),
        !frame_rejected(*frame, old(self).has_global()) ==>
            wrote(old(self).out(), final(self).out(), frame_control(*frame) + frame_desc(*frame), r is Ok)
            && (r is Err ==> old(self).out_room() < (frame_control(*frame) + frame_desc(*frame)).len())
            && (r is Ok ==> final(self).out_room() + (frame_control(*frame) + frame_desc(*frame)).len() >= old(self).out_room()),
)]
//// start
proof!{ lemma_or_bits(); assert(0u8 | 64u8 == 64u8 && 0u8 | 128u8 == 128u8 && 64u8 | 128u8 == 192u8) by (bit_vector); assert(forall|t: u8| t <= 7 ==> #[trigger] (128u8 | t) == 128 + t) by (bit_vector); assert(forall|t: u8| t <= 7 ==> #[trigger] (192u8 | t) == 192 + t) by (bit_vector); }
//// fn Encoder::write_image_block props=C20,C22,C24,C25
#[verus_spec(r =>
    requires old(self).open(),
    ensures
        final(self).open() && final(self).same_cfg(*old(self)),
        frame_outcome(*old(self), *final(self), image_block_bytes(lzw_image_data(data@)), r),
)]
//// fn Encoder::write_lzw_pre_encoded_frame props=C20,C22,C23,C24,C25
#[verus_spec(r =>
    requires old(self).open(),
    ensures
        final(self).open() && final(self).same_cfg(*old(self)),
        bad_min_code(cow_bytes(frame.buffer)) ==> r == Err::<(), _>(EncodingError::Format(EncodingFormatError::InvalidMinCodeSize)) && final(self).out() == old(self).out(),
        !bad_min_code(cow_bytes(frame.buffer)) && frame_rejected(*frame, old(self).has_global()) ==> r is Err && wrote(old(self).out(), final(self).out(), frame_control(*frame), false),
        !bad_min_code(cow_bytes(frame.buffer)) && !frame_rejected(*frame, old(self).has_global()) ==>
            frame_outcome(*old(self), *final(self), frame_bytes(*frame, cow_bytes(frame.buffer)), r),
)]
//// fn Encoder::get_ref props=C22
#[verus_spec(r => requires self.open(), ensures (*r).written() == self.out())]
//// fn Encoder::get_mut props=C22
#[verus_spec(r => requires old(self).open(), ensures old(self).holds(*r), final(self).holds(*final(r)), final(self).same_cfg(*old(self)))]
//// fn Encoder::into_inner props=C22,C24,C25
#[verus_spec(r =>
    requires self.open(),
    ensures match r {
        Ok(w) => w.written() =~= self.out() + seq![0x3Bu8],
        Err(_) => self.out_room() < 1,
    },
)]
//// fn Encoder::write_trailer props=C22,C24,C25
#[verus_spec(r =>
    requires old(self).open(),
    ensures
        final(self).open() && final(self).same_cfg(*old(self)),
        wrote(old(self).out(), final(self).out(), seq![0x3Bu8], r is Ok),
        r is Err ==> old(self).out_room() < 1,
        r is Ok ==> final(self).out_room() + 1 >= old(self).out_room(),
)]
//// fn lzw_encode props=C20,C25
#[verus_spec(
    requires old(buffer)@.len() == 0,
    ensures final(buffer)@ =~= lzw_image_data(data@),
)]
//// loop 0 for
#[verus_spec(it =>
    invariant
        buffer@.len() == 0,
        it.index@ <= it.seq().len(), it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *it.seq()[i] == data@[i],
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] data@[i] <= max_byte,
        max_byte == 0 || exists|i: int| 0 <= i < data@.len() && #[trigger] data@[i] == max_byte,
    ensures
        forall|i: int| 0 <= i < data@.len() ==> #[trigger] data@[i] <= max_byte || max_byte > 127,
        max_byte == 0 || exists|i: int| 0 <= i < data@.len() && #[trigger] data@[i] == max_byte,
)]
//// at buffer.push
proof!{ lemma_tz32(npot((if max_byte + 1 < 4 { 4 } else { max_byte + 1 }) as nat) as u32); lemma_min_code_size(data@, max_byte, min_code_size); }
//// fn Frame::make_lzw_pre_encoded props=C20,C25
#[verus_spec(
    ensures
        cow_bytes(final(self).buffer) =~= lzw_image_data(cow_bytes(old(self).buffer)),
        *final(self) == (Frame { buffer: final(self).buffer, ..*old(self) }),
)]
//// copybody <Encoder as Drop>::drop props=C22 => fn drop_body(&mut self)
#[verus_verify]
impl<W: Write> Encoder<W> {
#[verus_spec(
    ensures
        !old(self).open() ==> *final(self) == *old(self),
        old(self).open() ==> final(self).open() && (wrote(old(self).out(), final(self).out(), seq![0x3Bu8], true) || old(self).out_room() < 1),
)]
@BODY@
}
//// tail
use crate::vspec::*; use crate::common::*;
verus!{
broadcast use {lemma_wrote_base, lemma_wrote_trans, lemma_wrote_short, lemma_wrote_tail, lemma_sub_blocks_len, cow::axiom_deref, cow::axiom_deref_cow, qm::axiom_question_mark};

/// facts about putting flag bytes together, whichever way round the code does it
pub proof fn lemma_or_bits()
    ensures
        forall|x: u8, y: u8| #[trigger] (x | y) == y | x,
        forall|x: u8| #[trigger] (0u8 | x) == x,
        forall|x: u8| #[trigger] (x | 0u8) == x,
        forall|t: u8| t <= 7 ==> #[trigger] (64u8 | (128u8 | t)) == 192 + t,
        forall|t: u8| t <= 7 ==> #[trigger] (128u8 | (64u8 | t)) == 192 + t,
        0u8 | 64u8 == 64u8, 0u8 | 128u8 == 128u8, 64u8 | 128u8 == 192u8,
        forall|t: u8| t <= 7 ==> #[trigger] (128u8 | t) == 128 + t,
        forall|t: u8| t <= 7 ==> #[trigger] (192u8 | t) == 192 + t,
{
    assert(forall|x: u8, y: u8| #[trigger] (x | y) == y | x) by (bit_vector);
    assert(forall|x: u8| #[trigger] (0u8 | x) == x) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x | 0u8) == x) by (bit_vector);
    assert(forall|t: u8| t <= 7 ==> #[trigger] (64u8 | (128u8 | t)) == 192 + t) by (bit_vector);
    assert(forall|t: u8| t <= 7 ==> #[trigger] (128u8 | (64u8 | t)) == 192 + t) by (bit_vector);
    assert(0u8 | 64u8 == 64u8 && 0u8 | 128u8 == 128u8 && 64u8 | 128u8 == 192u8) by (bit_vector);
    assert(forall|t: u8| t <= 7 ==> #[trigger] (128u8 | t) == 128 + t) by (bit_vector);
    assert(forall|t: u8| t <= 7 ==> #[trigger] (192u8 | t) == 192 + t) by (bit_vector);
}
pub open spec fn control_flags(d: DisposalMethod, user: bool, trns: Option<u8>) -> u8 {
    (dispose_code(d) * 4 + (if user { 2int } else { 0 }) + (if trns is Some { 1int } else { 0 })) as u8
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for EncodingError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: io::Error) -> EncodingError { EncodingError::Io(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<EncodingFormatError> for EncodingError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: EncodingFormatError) -> EncodingError { EncodingError::Format(v) }
}
impl<const N: usize> crate::vspec::wr::WriteSpecImpl for Buf<N> {
    closed spec fn written(&self) -> Seq<u8> { self.buf@.subrange(0, self.pos as int) }
    closed spec fn room(&self) -> nat { (N - self.pos) as nat }
}
impl<const N: usize> Buf<N> {
    #[verifier::type_invariant]
    closed spec fn inv(&self) -> bool { self.pos <= N && N <= isize::MAX }
}
impl<W: Write> Encoder<W> {
    /// the writer is still owned by the encoder
    pub closed spec fn open(&self) -> bool { self.w is Some }
    pub closed spec fn out(&self) -> Seq<u8> { self.w->0.written() }
    pub closed spec fn out_room(&self) -> nat { self.w->0.room() }
    pub closed spec fn has_global(&self) -> bool { self.global_palette }
    pub closed spec fn screen(&self) -> (u16, u16) { (self.width, self.height) }
    pub closed spec fn holds(&self, w: W) -> bool { self.w == Some(w) }
    pub closed spec fn same_cfg(&self, o: Self) -> bool { self.global_palette == o.global_palette && self.width == o.width && self.height == o.height }
}
}

verus!{
pub open spec fn ext_bytes(e: ExtensionData) -> Seq<u8> {
    match e {
        ExtensionData::Control { flags, delay, trns } => control_bytes(flags, delay, trns),
        ExtensionData::Repetitions(Repeat::Finite(n)) => if n == 0 { Seq::empty() } else { repeat_bytes(n) },
        ExtensionData::Repetitions(Repeat::Infinite) => repeat_bytes(0),
    }
}
pub open spec fn slices(d: Seq<&[u8]>) -> Seq<Seq<u8>> { d.map_values(|s: &[u8]| s@) }
pub open spec fn chunked_all(d: Seq<Seq<u8>>) -> Seq<u8>
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() } else { chunked(d[0]) + chunked_all(d.skip(1)) }
}
pub open spec fn raw_ext_tail(d: Seq<Seq<u8>>) -> Seq<u8> { chunked_all(d) + seq![0u8] }
pub open spec fn raw_ext_bytes(func: u8, d: Seq<Seq<u8>>) -> Seq<u8> { seq![0x21u8, func] + chunked_all(d) + seq![0u8] }
pub open spec fn frame_rejected(f: Frame<'_>, global: bool) -> bool {
    match f.palette { Some(p) => colors(p@) > 256, None => !global }
}
pub open spec fn frame_control(f: Frame<'_>) -> Seq<u8> {
    control_bytes(control_flags(f.dispose, f.needs_user_input, f.transparent), f.delay, match f.transparent { Some(t) => t, None => 0 })
}
pub open spec fn frame_desc(f: Frame<'_>) -> Seq<u8> {
    seq![0x2Cu8] + le16(f.left) + le16(f.top) + le16(f.width) + le16(f.height)
        + seq![((if f.interlaced { 0x40int } else { 0 }) + match f.palette { Some(p) => 0x80 + table_flag(colors(p@)), None => 0 }) as u8]
        + match f.palette { Some(p) => table_bytes(p@), None => Seq::empty() }
}
pub open spec fn frame_bytes(f: Frame<'_>, lzw: Seq<u8>) -> Seq<u8> { frame_control(f) + frame_desc(f) + image_block_bytes(lzw) }
pub open spec fn bad_min_code(d: Seq<u8>) -> bool { d.len() > 0 && !(2 <= d[0] <= 11) }
/// `total` was appended, or the call failed for lack of room or memory after writing a prefix of it
pub open spec fn frame_outcome<W: Write>(o: Encoder<W>, n: Encoder<W>, total: Seq<u8>, r: Result<(), EncodingError>) -> bool {
    &&& wrote(o.out(), n.out(), total, r is Ok)
    &&& (r is Err ==> o.out_room() < total.len() || r->Err_0 == EncodingError::Io(err_of_kind(io::ErrorKind::OutOfMemory)))
    &&& (r is Ok ==> n.out_room() + total.len() >= o.out_room())
}
}
