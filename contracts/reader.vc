//// file reader/mod.rs
//// type DecodeOptions
#[verus_verify(external_derive)]
/*pub*/
//// fn MemoryLimit::buffer_size props=C09,C01
#[verus_spec(r => ensures
   /*C09*/ r is Some <==> within(*self, pixel_bytes(color, width, height)),
   r matches Some(n) ==> n == pixel_bytes(color, width, height))]
//// start
proof!{ assert(width * height <= 65535 * 65535) by (nonlinear_arith) requires width <= 65535, height <= 65535; }
//// at let total_bytes
proof!{ assert(pixels == width * height); assert(pixels * bytes_per_pixel <= 65535 * 65535 * 4) by (nonlinear_arith) requires 0 <= pixels <= 65535 * 65535, 0 <= bytes_per_pixel <= 4; assert(pixels * bytes_per_pixel == width * height * channels(color)); }
//// fn DecodeOptions::new props=C01,C08,C09,C13,C14,C15,C25
#[verus_spec(r => ensures
   /*C09*/ r.memory_limit matches MemoryLimit::Bytes(n) && n@ == 50_000_000, r.color_output is Indexed,
   /*C08*/ !r.check_frame_consistency, /*C13,C25*/ !r.skip_frame_decoding, /*C14*/ !r.check_for_end_code, /*C15*/ !r.allow_unknown_blocks)]
//// impl <DecodeOptions as Default>
//// fn <DecodeOptions as Default>::default props=C01,C08,C09,C13,C14,C15
#[verus_spec(r => ensures
   /*C09*/ r.memory_limit matches MemoryLimit::Bytes(n) && n@ == 50_000_000, r.color_output is Indexed,
   /*C08*/ !r.check_frame_consistency, /*C13,C25*/ !r.skip_frame_decoding, /*C14*/ !r.check_for_end_code, /*C15*/ !r.allow_unknown_blocks)]
//// fn Decoder::build props=C01,C08,C09,C13,C14,C15
#[verus_spec(r => ensures
   /*C09*/ r.memory_limit matches MemoryLimit::Bytes(n) && n@ == 50_000_000, r.color_output is Indexed,
   /*C08*/ !r.check_frame_consistency, /*C13,C25*/ !r.skip_frame_decoding, /*C14*/ !r.check_for_end_code, /*C15*/ !r.allow_unknown_blocks)]
//// fn ReadDecoder::into_inner props=C01
#[verus_spec(r => ensures r == self.reader)]
//// fn Decoder::into_inner props=C01
#[verus_spec(r => ensures r == self.decoder.reader)]
//// fn DecoderIter::into_inner props=C01
#[verus_spec(r => ensures r == self.inner.decoder.reader)]
//// fn DecodeOptions::set_color_output props=C01,C08,C09,C11,C13,C14,C15,C25
#[verus_spec(ensures
    /*C11*/ final(self).color_output == color,
    /*C09*/ final(self).memory_limit == old(self).memory_limit,
    /*C08*/ final(self).check_frame_consistency == old(self).check_frame_consistency,
    /*C13,C25*/ final(self).skip_frame_decoding == old(self).skip_frame_decoding,
    /*C14*/ final(self).check_for_end_code == old(self).check_for_end_code,
    /*C15*/ final(self).allow_unknown_blocks == old(self).allow_unknown_blocks)]
//// fn DecodeOptions::set_memory_limit props=C01,C08,C09,C11,C13,C14,C15,C25
#[verus_spec(ensures
    /*C11*/ final(self).color_output == old(self).color_output,
    /*C09*/ final(self).memory_limit == limit,
    /*C08*/ final(self).check_frame_consistency == old(self).check_frame_consistency,
    /*C13,C25*/ final(self).skip_frame_decoding == old(self).skip_frame_decoding,
    /*C14*/ final(self).check_for_end_code == old(self).check_for_end_code,
    /*C15*/ final(self).allow_unknown_blocks == old(self).allow_unknown_blocks)]
//// fn DecodeOptions::check_frame_consistency props=C01,C08,C09,C11,C13,C14,C15,C25
#[verus_spec(ensures
    /*C11*/ final(self).color_output == old(self).color_output,
    /*C09*/ final(self).memory_limit == old(self).memory_limit,
    /*C08*/ final(self).check_frame_consistency == check,
    /*C13,C25*/ final(self).skip_frame_decoding == old(self).skip_frame_decoding,
    /*C14*/ final(self).check_for_end_code == old(self).check_for_end_code,
    /*C15*/ final(self).allow_unknown_blocks == old(self).allow_unknown_blocks)]
//// fn DecodeOptions::skip_frame_decoding props=C01,C08,C09,C11,C13,C14,C15,C25
#[verus_spec(ensures
    /*C11*/ final(self).color_output == old(self).color_output,
    /*C09*/ final(self).memory_limit == old(self).memory_limit,
    /*C08*/ final(self).check_frame_consistency == old(self).check_frame_consistency,
    /*C13,C25*/ final(self).skip_frame_decoding == skip,
    /*C14*/ final(self).check_for_end_code == old(self).check_for_end_code,
    /*C15*/ final(self).allow_unknown_blocks == old(self).allow_unknown_blocks)]
//// fn DecodeOptions::check_lzw_end_code props=C01,C08,C09,C11,C13,C14,C15,C25
#[verus_spec(ensures
    /*C11*/ final(self).color_output == old(self).color_output,
    /*C09*/ final(self).memory_limit == old(self).memory_limit,
    /*C08*/ final(self).check_frame_consistency == old(self).check_frame_consistency,
    /*C13,C25*/ final(self).skip_frame_decoding == old(self).skip_frame_decoding,
    /*C14*/ final(self).check_for_end_code == check,
    /*C15*/ final(self).allow_unknown_blocks == old(self).allow_unknown_blocks)]
//// fn DecodeOptions::allow_unknown_blocks props=C01,C08,C09,C11,C13,C14,C15,C25
#[verus_spec(ensures
    /*C11*/ final(self).color_output == old(self).color_output,
    /*C09*/ final(self).memory_limit == old(self).memory_limit,
    /*C08*/ final(self).check_frame_consistency == old(self).check_frame_consistency,
    /*C13,C25*/ final(self).skip_frame_decoding == old(self).skip_frame_decoding,
    /*C14*/ final(self).check_for_end_code == old(self).check_for_end_code,
    /*C15*/ final(self).allow_unknown_blocks == check)]
//// tail
verus!{
pub open spec fn channels(c: ColorOutput) -> nat { match c { ColorOutput::Indexed => 1, ColorOutput::RGBA => 4 } }
/// size of the output buffer of a frame
pub open spec fn pixel_bytes(c: ColorOutput, w: u16, h: u16) -> nat { (w as nat) * (h as nat) * channels(c) }
}
//// file reader/converter.rs
//// type ColorOutput
//// const N_CHANNELS
//// file reader/decoder.rs
//// fn StreamingDecoder::new props=C01,C04,C25
#[verus_spec(r => ensures r.wf(), same(r.abs(), abs0()), /*C08*/ !r.cfg().frames, /*C13,C25*/ !r.cfg().skip, /*C14*/ !r.cfg().end, /*C15*/ !r.cfg().unknown)]
//// fn StreamingDecoder::with_options props=C01,C04,C08,C09,C13,C14,C15,C25
#[verus_spec(r => ensures r.wf(), same(r.abs(), abs0()),
   /*C08*/ r.check_frame_consistency == options.check_frame_consistency, /*C13,C25*/ r.skip_frame_decoding == options.skip_frame_decoding,
   /*C14*/ r.lzw_reader.check_for_end_code == options.check_for_end_code, /*C15*/ r.allow_unknown_blocks == options.allow_unknown_blocks,
   /*C09*/ r.memory_limit == options.memory_limit)]
//// fn StreamingDecoder::last_ext props=C01,C06,C15,C25
#[verus_spec(r => ensures r.0 == self.ext.id, r.1@ == self.ext.data@, r.2 == self.ext.is_block_end)]
//// fn StreamingDecoder::current_frame_mut props=C01,C05,C25
#[verus_spec(r => requires old(self).current is Some ensures *r == old(self).current->0, *final(self) == (StreamingDecoder { current: Some(*final(r)), ..*old(self) }))]
//// fn StreamingDecoder::current_frame props=C01,C05,C25
#[verus_spec(r => requires self.current is Some ensures *r == self.current->0)]
//// fn StreamingDecoder::width props=C01,C04,C25
#[verus_spec(r => ensures r == self.width)]
//// fn StreamingDecoder::height props=C01,C04,C25
#[verus_spec(r => ensures r == self.height)]
//// fn StreamingDecoder::version props=C01,C04,C25
#[verus_spec(r => ensures r == self.version)]
//// tail
verus!{
pub assume_specification[ <MemoryLimit as Clone>::clone ](l: &MemoryLimit) -> (r: MemoryLimit) ensures r == *l;
/// before anything was read
pub open spec fn abs0() -> Abs { Abs { st: State::Magic, has: Seq::empty(), ver: Version::V87a, w: 0, h: 0, gpal: Seq::empty(), id: 0, ext: Seq::empty(), ext_end: true, cur: None, started: false, min: 0 } }
}
