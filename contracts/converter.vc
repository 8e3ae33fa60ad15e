//// file reader/converter.rs
//// type PixelConverter
/*pub*/
//// type InterlaceIterator
/*pub*/
//// fn PixelConverter::new props=C01,C09,C11
#[verus_spec(r => ensures r.memory_limit == memory_limit, r.color_output == color_output, r.global_palette is None)]
//// fn PixelConverter::check_buffer_size props=C01,C09,C12,C25
#[verus_spec(r => ensures
   /*C09,C12,C25*/ r is Ok <==> within(self.memory_limit, pixel_bytes(self.color_output, frame.width, frame.height)),
   r matches Ok(n) ==> n == pixel_bytes(self.color_output, frame.width, frame.height))]
//// fn PixelConverter::buffer_size props=C01,C09,C12,C25
#[verus_spec(r => ensures r == Some(pixel_bytes(self.color_output, frame.width, frame.height) as usize))]
//// start
proof!{ lemma_pixel_bytes(self.color_output, frame.width, frame.height); }
//// fn PixelConverter::line_length props=C01,C10,C12,C25
#[verus_spec(r => ensures r == line_bytes(self.color_output, frame.width))]
//// fn PixelConverter::global_palette props=C01,C05,C11,C25
#[verus_spec(r => ensures r is Some <==> self.global_palette is Some, r matches Some(p) ==> p@ == self.global_palette->0@)]
//// start
proof!{ broadcast use axiom_deref_vec; }
//// fn PixelConverter::set_global_palette props=C01,C04,C11,C25
#[verus_spec(ensures *final(self) == (PixelConverter { global_palette: if palette@.len() > 0 { Some(palette) } else { None }, ..*old(self) }))]
//// copybody <InterlaceIterator as iter::Iterator>::next props=C01,C10 => pub fn next(&mut self) -> Option<usize>
#[verus_verify]
impl InterlaceIterator {
#[verus_spec(r => requires old(self).wf()
  ensures final(self).wf(), final(self).len == old(self).len,
    match r { Some(x) => old(self).rows() =~= seq![x as int] + final(self).rows(), None => old(self).rows().len() == 0 })]
@BODY@
}
//// loop 0 while
#[verus_spec(
  invariant self.len == old(self).len, self.len > 0, self.pass <= 4, self.pass >= old(self).pass, self.next == old(self).next, next < 65535 + 9,
    self.pass == 4 ==> next == 0,
    pass_rows(self.len as nat, old(self).pass as nat, (old(self).next + pass_step(old(self).pass as nat)) as nat) == pass_rows(self.len as nat, self.pass as nat, next as nat),
  decreases 5 - self.pass
)]
//// fn PixelConverter::fill_buffer props=C01,C02,C11,C12,C25
//// split rgba C11,C12,C25 => old(self).color_output is RGBA && old(buf)@.len() > 0
//// split indexed C12,C25 => old(self).color_output is Indexed && old(buf)@.len() > 0
//// split empty C01,C12,C25 => old(buf)@.len() == 0
//// rewrite data_callback: FillBufferCallback<'_> => data_callback: &mut impl DataSource
//// rewrite data_callback(&mut => data_callback.fetch(&mut
//// rewrite &mut self.buffer[.. => &mut self.buffer.as_mut_slice()[..
//// rewrite pixels.chunks_exact_mut(N_CHANNELS).zip(self.buffer.iter().copied().take(bytes_decoded)) => chunks_with_bytes(pixels, N_CHANNELS, &self.buffer, bytes_decoded)
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(40)]
#[verus_spec(r => requires old(data_callback).ready(), @CASE@
  ensures final(self).same_but_buffer(*old(self)), r is Ok ==> final(data_callback).ready(), reached(*old(data_callback), *final(data_callback), r, old(buf)@.len() > 0),
    final(buf)@.len() == old(buf)@.len(),
    r matches Ok(b) ==> if old(buf)@.len() > 0 { filled(*old(self), *current_frame, *old(data_callback), *final(data_callback), old(buf)@, final(buf)@, b) } else { !b },
    r matches Ok(b) ==> b && old(buf)@.len() > 0 && old(data_callback).live() ==> final(data_callback).live(),
    r matches Err(e) ==> old(buf)@.len() > 0 && old(data_callback).live() ==> old(self).color_output is RGBA && old(buf)@.len() % 4 != 0 || went_wrong(*old(data_callback), *final(data_callback), e)
)]
//// start
proof_decl!{ let ghost b0 = buf@; let ghost fin0 = final(buf)@; let ghost made0 = data_callback.made(); let ghost pal = palette_of(*current_frame, self.global_palette); let ghost ch = channels(self.color_output); }
proof!{ broadcast use {axiom_deref_vec, qm::axiom_question_mark, lemma_shown_len}; lemma_shown_len(self.color_output, pal, current_frame.transparent, Seq::empty(), b0); assert(data_callback.made().skip(made0.len() as int) =~= Seq::empty()); assert(fin0 =~= shown(self.color_output, pal, current_frame.transparent, Seq::empty(), b0) + fin0); }
//// loop 0 loop
#[verus_spec(
  invariant self.same_but_buffer(*old(self)), data_callback.ready(), reached(*old(data_callback), *data_callback, Ok::<(), DecodingError>(()), b0.len() > 0),
    b0.len() == 0 && buf@.len() == 0 || 0 < buf@.len() <= b0.len(), self.color_output is RGBA ==> buf@ =~= b0.skip(b0.len() - buf@.len()),
    fin0 =~= shown(self.color_output, pal, current_frame.transparent, data_callback.made().skip(made0.len() as int), b0) + final(buf)@,
    made0.is_prefix_of(data_callback.made()), (data_callback.made().len() - made0.len()) * ch == b0.len() - buf@.len(), b0.len() > 0 && old(data_callback).live() ==> data_callback.live(),
    self.color_output is RGBA ==> buf@.len() % 4 == b0.len() % 4,
  decreases buf@.len()
)]
//// loopstart 0
proof_decl!{ let ghost bi = buf@; let ghost fi = final(buf)@; let ghost mi = data_callback.made(); let ghost dc = *data_callback; }
//// at let transparent
proof!{ axiom_slice_len(buf); }
//// at let (pixels, rest)
proof!{ assert(palette@ == pal); }
//// at buf = rest
proof!{ assert(fi =~= final(pixels)@ + final(rest)@); }
//// at if buf.is_empty
proof!{
    let x = data_callback.made().skip(mi.len() as int); let i0 = mi.skip(made0.len() as int);
    assert(data_callback.made().skip(made0.len() as int) =~= i0 + x);
    if self.color_output is RGBA { assert(ch == 4); assert(x.len() == bytes_decoded); assert((i0.len() + x.len()) * ch <= b0.len()) by (nonlinear_arith) requires ch == 4, i0.len() * ch + bi.len() == b0.len(), 4 * x.len() <= bi.len(); } else { assert(ch == 1); }
    assert(x.len() * ch == bi.len() - buf@.len());
    if self.color_output is RGBA { lemma_shown_rgba(pal, current_frame.transparent, i0, x, b0); assert(bi =~= b0.skip((4 * i0.len()) as int)); assert(fi =~= shown(self.color_output, pal, current_frame.transparent, x, bi) + final(buf)@); }
    else { reveal(shown); assert(fi =~= x + final(buf)@); }
}
//// at for (rgba, idx)
proof_decl!{ let ghost all = self.buffer@.take(bytes_decoded as int); let ghost pix0 = pixels@; let ghost pfin = final(pixels)@; }
proof!{ assert(all.take(0) =~= Seq::empty()); assert(shown(ColorOutput::RGBA, pal, transparent, all.take(0), pix0) =~= Seq::empty()); assert(all.skip(0) =~= all); assert(pix0.skip(0) =~= pix0); }
//// loop 1 for desugar plain
#[verus_spec(
  invariant pix0.len() == 4 * all.len(), cb_size(__it1) == 4, cb_idx(__it1).len() <= all.len(), cb_idx(__it1) =~= all.skip(all.len() - cb_idx(__it1).len()),
    cb_left(__it1) =~= pix0.skip(4 * (all.len() - cb_idx(__it1).len())),
    pfin =~= shown(ColorOutput::RGBA, pal, transparent, all.take(all.len() - cb_idx(__it1).len()), pix0) + cb_fin(__it1),
  ensures cb_idx(__it1).len() == 0, cb_fin(__it1).len() == 0,
  decreases cb_idx(__it1).len()
)]
//// loopstart 1
proof_decl!{ let ghost k = all.len() - cb_idx(__it1).len() - 1; let ghost c0 = rgba@; }
proof!{ assert(idx == all[k]); assert(forall|j: int| 0 <= j < 4 ==> c0[j] == pix0[4 * k + j]); }
//// loopend 1
proof!{ assert(rgba@.len() == 4); assert(forall|j: int| 0 <= j < 4 ==> rgba@[j] == rgba_byte(pal, transparent, idx, j, c0[j])); lemma_shown_push(pal, transparent, all, k, pix0, rgba@); }
//// afterloop 1
proof!{ assert(all.take(all.len() as int) =~= all); assert(pfin =~= shown(ColorOutput::RGBA, pal, transparent, all, pix0)); assert(pix0 =~= bi.take(pix0.len() as int)); lemma_shown_prefix(pal, transparent, all, bi, pix0); assert(data_callback.made().skip(mi.len() as int) =~= all); assert(pfin =~= shown(ColorOutput::RGBA, pal, transparent, all, bi)); assert(transparent == current_frame.transparent); assert(fi =~= pfin + final(buf)@); }
//// fn PixelConverter::read_into_buffer props=C01,C02,C10,C12,C25
//// rewrite data_callback: FillBufferCallback<'_> => data_callback: &mut impl DataSource
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
#[verus_spec(r => requires old(data_callback).ready()
  ensures final(self).same_but_buffer(*old(self)), r is Ok ==> final(data_callback).ready(), reached(*old(data_callback), *final(data_callback), r, true),
    final(buf)@.len() == old(buf)@.len(),
    r is Ok ==> image_read(*old(self), *frame, *old(data_callback), *final(data_callback), old(buf)@, final(buf)@),
    r matches Err(e) ==> old(data_callback).live() && frame.width > 0 && frame.height > 0 ==> image_err(*old(self), *frame, *old(data_callback), *final(data_callback), old(buf)@.len() as int, e)
)]
//// start
proof_decl!{ let ghost (l, w, h) = (line_bytes(self.color_output, frame.width) as int, frame.width as int, frame.height as int); let ghost rows = row_order(*frame); let ghost b0 = buf@; let ghost made0 = data_callback.made(); let ghost pal = palette_of(*frame, self.global_palette); }
proof!{ broadcast use qm::axiom_question_mark; lemma_rows(*frame); lemma_pixel_bytes(self.color_output, frame.width, frame.height); assert(h - rows.len() == 0); assert(w * 0 == 0); assert(w * (h - rows.len()) == 0); }
//// loop 0 for desugar plain
#[verus_spec(
  invariant __it0.wf(), __it0.len == frame.height, __it0.rows().len() <= h, __it0.rows() =~= rows.skip(h - __it0.rows().len()),
    self.same_but_buffer(*old(self)), data_callback.ready(), reached(*old(data_callback), *data_callback, Ok::<(), DecodingError>(()), true),
    buf@.len() == b0.len(), h - __it0.rows().len() > 0 ==> l > 0, forall|i: int| 0 <= i < h - __it0.rows().len() ==> #[trigger] rows[i] * l + l <= b0.len(),
    made0.is_prefix_of(data_callback.made()), data_callback.made().len() - made0.len() == w * (h - __it0.rows().len()), old(data_callback).live() && w > 0 ==> data_callback.live(),
    forall|i: int| 0 <= i < h - __it0.rows().len() && l * h <= b0.len() ==> line_at(buf@, #[trigger] rows[i], l) =~= shown(self.color_output, pal, frame.transparent, line_at(data_callback.made().skip(made0.len() as int), i, w), line_at(b0, rows[i], l)),
    forall|i: int| h - __it0.rows().len() <= i < h && l * h <= b0.len() ==> line_at(buf@, #[trigger] rows[i], l) =~= line_at(b0, rows[i], l),
    l * h <= b0.len() ==> buf@.skip(l * h) =~= b0.skip(l * h),
  decreases __it0.rows().len()
)]
//// at let start
proof_decl!{ let ghost k = h - __it0.rows().len() - 1; let ghost bi = buf@; let ghost mi = data_callback.made(); let ghost dc = *data_callback; }
proof!{
    assert(rows.skip(k)[0] == row as int); assert(rows.skip(k).skip(1) =~= rows.skip(k + 1)); assert(rows[k] == row as int && rows.contains(rows[k]));
    assert(rows.contains(row as int)); assert(width <= 4 * 65535) by (nonlinear_arith) requires width == w * channels(self.color_output), channels(self.color_output) == 1 || channels(self.color_output) == 4, 0 <= w <= 65535;
    assert(row * width + width <= l * h) by (nonlinear_arith) requires 0 <= row < h, width == l, l >= 0;
    assert(w * k + w <= w * h) by (nonlinear_arith) requires 0 <= k < h, w >= 0;
    lemma_line(self.color_output, frame.width);
    assert(row * width <= 65535 * (4 * 65535)) by (nonlinear_arith) requires row <= 65535, width <= 4 * 65535;
    axiom_slice_len(buf);
}
//// at self.fill_buffer(frame, line
proof_decl!{ let ghost line0 = line@; let ghost fl = final(line)@; }
proof!{ assert(line0 =~= line_at(bi, row as int, l)); assert(line0.len() == l); lemma_few(self.color_output, frame.width, frame.height, l); assert(dc == *data_callback); }
//// loopend 0
proof!{
    assert(buf@ =~= bi.take(row * l) + fl + bi.skip(row * l + l));
    let x = data_callback.made().skip(mi.len() as int);
    assert(w * (k + 1) == w * k + w) by (nonlinear_arith); assert(x.len() == w) by (nonlinear_arith) requires x.len() * channels(self.color_output) == l, l == w * channels(self.color_output), channels(self.color_output) > 0;
    let sh = shown(self.color_output, pal, frame.transparent, x, line0);
    assert(palette_of(*frame, self.global_palette) == pal); assert(sh.len() == l) by { broadcast use lemma_shown_len; } assert(fl.take(l) =~= fl); assert(x.len() * channels(self.color_output) == l);
    assert(fl =~= sh);
    if l * h <= b0.len() { assert(line_at(bi, rows[k], l) =~= line_at(b0, rows[k], l)); lemma_lines(rows, h, k, l, w, bi, buf@, fl, mi.skip(made0.len() as int), x); }
    assert(data_callback.made().skip(made0.len() as int) =~= mi.skip(made0.len() as int) + x);
}
//// at self.buffer_size(frame)
proof!{ lemma_pixel_bytes(self.color_output, frame.width, frame.height); }
//// at self.fill_buffer(frame, buf
proof!{ assert(buf@ =~= b0.take(l * h)); assert(buf@.len() == l * h); lemma_line(self.color_output, frame.width); lemma_few(self.color_output, frame.width, frame.height, l * h); if w > 0 && h > 0 { assert(l * h > 0) by (nonlinear_arith) requires l > 0, h > 0; } if self.color_output is RGBA { assert(l * h == 4 * (w * h)) by (nonlinear_arith) requires l == w * 4; } }
//// at Ok(())
proof!{
    if frame.interlaced && h > 0 { assert(rows.contains(h - 1)); let i = rows.index_of(h - 1); assert(rows[i] * l + l == l * h) by (nonlinear_arith) requires rows[i] == h - 1; assert(h == frame.height); }
    if !frame.interlaced {
        let px = data_callback.made().skip(made0.len() as int);
        lemma_pixel_bytes(self.color_output, frame.width, frame.height);
        assert(px.len() * channels(self.color_output) == l * h); assert(buf@.len() == b0.len()); assert(buf@.skip(l * h) =~= b0.skip(l * h));
        assert(buf@.take(l * h) =~= shown(self.color_output, pal, frame.transparent, px, b0.take(l * h)));
        lemma_whole(*self, *frame, px, b0, buf@);
    }
}
//// fn PixelConverter::read_frame props=C01,C02,C10,C12,C25
//// rewrite data_callback: FillBufferCallback<'_> => data_callback: &mut impl DataSource
#[verus_spec(r => requires old(data_callback).ready()
  ensures final(self).same_but_buffer(*old(self)), r is Ok ==> final(data_callback).ready(), reached(*old(data_callback), *final(data_callback), r, true),
    r is Ok ==> final(frame).buffer is Owned,
    r is Ok ==> same_frame_but(*old(frame), *final(frame)) && !final(frame).interlaced,
    r matches Err(e) ==> old(data_callback).live() && old(frame).width > 0 && old(frame).height > 0 ==> !within(old(self).memory_limit, pixel_bytes(old(self).color_output, old(frame).width, old(frame).height))
        || image_err(*old(self), *old(frame), *old(data_callback), *final(data_callback), pixel_bytes(old(self).color_output, old(frame).width, old(frame).height) as int, e),
    r is Ok ==> exists|ob: Seq<u8>| ob.len() == pixel_bytes(old(self).color_output, old(frame).width, old(frame).height) && (old(frame).buffer is Borrowed ==> ob =~= zeros(ob.len())) && #[trigger] image_read(*old(self), *old(frame), *old(data_callback), *final(data_callback), ob, cow_bytes(final(frame).buffer))
)]
//// start
proof!{ broadcast use qm::axiom_question_mark; }
//// at self.read_into_buffer
proof_decl!{ let ghost ob = vec@; let ghost f1 = *frame; }
//// at frame.buffer = Cow::Owned(vec)
proof!{ assert(vec@.len() == ob.len()); assert(image_read(*self, f1, *old(data_callback), *data_callback, ob, vec@)); assert(row_order(f1) == row_order(*old(frame))); assert(image_read(*old(self), *old(frame), *old(data_callback), *data_callback, ob, vec@)); }
//// at Ok(())
proof!{ assert(ob.len() == crate::reader::pixel_bytes(self.color_output, frame.width, frame.height)); assert(old(frame).buffer is Borrowed ==> ob =~= zeros(ob.len())); assert(image_read(*old(self), *old(frame), *old(data_callback), *data_callback, ob, cow_bytes(frame.buffer))); }
//// tail
use vstd::prelude::*; use crate::vspec::*; use crate::vspec::cow::deref_value; use crate::reader::*;
verus!{
pub assume_specification<T: std::ops::Deref>[ Option::<T>::as_deref ](o: &Option<T>) -> (r: Option<&<T as std::ops::Deref>::Target>)
    ensures (r is Some) == (*o is Some), *o matches Some(x) ==> r == Some(deref_value(&x));
pub assume_specification<T: std::marker::Destruct>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some { a } else { b };
pub assume_specification<'a, T>[ <&'a [T] as Default>::default ]() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty();
pub broadcast axiom fn axiom_deref_vec(c: Vec<u8>) ensures #[trigger] deref_value(&c)@ == c@;
pub open spec fn line_bytes(c: ColorOutput, w: u16) -> nat { w as nat * channels(c) }
pub proof fn lemma_line(c: ColorOutput, w: u16)
    ensures w > 0 ==> line_bytes(c, w) > 0, c is RGBA ==> line_bytes(c, w) % 4 == 0
{ let ch = channels(c); assert(w > 0 ==> w as nat * ch > 0) by (nonlinear_arith) requires ch > 0; }
/// less than a line or an image in bytes is less than one in pixels
pub proof fn lemma_few(c: ColorOutput, w: u16, h: u16, n: int)
    ensures forall|i: nat| #[trigger] (i * channels(c)) < n ==> (n == line_bytes(c, w) ==> i < w) && (n == line_bytes(c, w) * h ==> i < w * h)
{
    let ch = channels(c);
    assert forall|i: nat| #[trigger] (i * channels(c)) < n implies (n == line_bytes(c, w) ==> i < w) && (n == line_bytes(c, w) * h ==> i < w * h) by {
        assert(n == w * ch ==> i < w) by (nonlinear_arith) requires i * ch < n;
        assert(n == w * ch * h ==> i < w * h) by (nonlinear_arith) requires i * ch < n;
    }
}
pub proof fn lemma_pixel_bytes(c: ColorOutput, w: u16, h: u16)
    ensures line_bytes(c, w) * h == pixel_bytes(c, w, h), pixel_bytes(c, w, h) <= 4 * 65535 * 65535, w * h <= pixel_bytes(c, w, h)
{
    assert((w as nat) * (h as nat) <= (w as nat) * (h as nat) * 4) by (nonlinear_arith);
    assert(w * h <= 65535 * 65535) by (nonlinear_arith) requires w <= 65535, h <= 65535;
    assert((w as nat) * (h as nat) * 4 <= 4 * 65535 * 65535) by (nonlinear_arith) requires w <= 65535, h <= 65535;
    assert((w as nat * channels(c)) * h == (w as nat) * (h as nat) * channels(c)) by (nonlinear_arith);
}
pub open spec fn pass_start(p: nat) -> nat { if p == 0 { 0 } else if p == 1 { 4 } else if p == 2 { 2 } else if p == 3 { 1 } else { 0 } }
pub open spec fn pass_step(p: nat) -> nat { if p == 0 { 8 } else if p == 1 { 8 } else if p == 2 { 4 } else { 2 } }
/// GIF four-pass order: the rows from `next` on in pass `p`, then the later passes
pub open spec fn pass_rows(len: nat, p: nat, next: nat) -> Seq<int>
    decreases 4 - p, if next < len { len - next } else { 0 }
{
    if p >= 4 { Seq::empty() }
    else if next >= len { pass_rows(len, p + 1, pass_start(p + 1)) }
    else { seq![next as int] + pass_rows(len, p, next + pass_step(p)) }
}
impl InterlaceIterator {
    pub open spec fn rows(self) -> Seq<int> { if self.len == 0 { Seq::empty() } else { pass_rows(self.len as nat, self.pass as nat, self.next as nat) } }
    pub open spec fn wf(self) -> bool { self.len > 0 && self.pass < 4 ==> self.next < self.len }
}
}

verus!{
/// Where the pixels of an image come from: the closures the callers pass as `FillBufferCallback`.
pub trait DataSource: Sized {
    spec fn ready(&self) -> bool;
    /// pixels delivered so far
    spec fn made(&self) -> Seq<u8>;
    /// every pixel the image data stands for has been delivered
    spec fn done(&self) -> bool;
    /// `self` was reached from `o` by fetching
    #[verifier::prophetic]
    spec fn through(&self, o: Self) -> bool;
    /// `self` was reached from `o` by fetching, perhaps without room for the result
    #[verifier::prophetic]
    spec fn tried(&self, o: Self) -> bool;
    /// `self` was reached from `o` by fetching, the last fetch having failed with `e`
    #[verifier::prophetic]
    spec fn failed(&self, o: Self, e: DecodingError) -> bool;
    /// the end of the image data was not met yet
    spec fn live(&self) -> bool;
    /// `self` was reached from `o` by fetching, and something in the image data or its transmission is wrong
    #[verifier::prophetic]
    spec fn spoiled(&self, o: Self, e: DecodingError) -> bool;
    proof fn lemma_refl(&self) ensures self.ready() ==> self.through(*self) && self.tried(*self);
    fn fetch(&mut self, out: &mut OutputBuffer<'_>) -> (r: Result<usize, DecodingError>)
        requires old(self).ready(),
        ensures r is Ok ==> final(self).ready(), (*final(out)).kept(*old(out)),
            forall|o: Self| #[trigger] old(self).tried(o) ==> match r { Ok(_) => final(self).tried(o), Err(e) => final(self).failed(o, e) },
            r is Ok && *old(out) is Slice && old(out).room() > 0 ==> forall|o: Self| #[trigger] old(self).through(o) ==> final(self).through(o),
            r matches Err(e) ==> *old(out) is Slice && old(out).room() > 0 && old(self).live() ==> forall|o: Self| #[trigger] old(self).through(o) && old(self).tried(o) ==> final(self).spoiled(o, e),
            r matches Ok(n) ==> *old(out) is Slice ==> n <= old(out).room() && (old(out).room() > 0 ==> {
                &&& n > 0 && old(self).live() ==> final(self).live()
                &&& final(self).made() == old(self).made() + final(out).cur().take(n as int)
                &&& n == 0 ==> final(self).done()
            });
}
/// `n` was reached from `o`
#[verifier::prophetic]
pub open spec fn reached<S: DataSource, T>(o: S, n: S, r: Result<T, DecodingError>, ok: bool) -> bool {
    (forall|x: S| #[trigger] o.tried(x) ==> n.tried(x) || (r matches Err(e) && n.failed(x, e))) && (r is Ok && ok ==> forall|x: S| #[trigger] o.through(x) ==> n.through(x))
}
/// reading on from `o` failed with `e` for something that is wrong with the image data or its transmission
#[verifier::prophetic]
pub open spec fn went_wrong<S: DataSource>(o: S, n: S, e: DecodingError) -> bool { forall|x: S| #[trigger] o.through(x) && o.tried(x) ==> n.spoiled(x, e) }
/// the image data is over too early
#[verifier::prophetic]
pub open spec fn too_short<S: DataSource>(o: S, n: S, px: int) -> bool {
    n.done() && o.made().is_prefix_of(n.made()) && n.made().len() - o.made().len() < px && (forall|x: S| #[trigger] o.through(x) ==> n.through(x)) && (forall|x: S| #[trigger] o.tried(x) ==> n.tried(x))
}
/// why a frame with something in it cannot be read into `len` bytes
#[verifier::prophetic]
pub open spec fn image_err<S: DataSource>(p: PixelConverter, f: Frame<'_>, o: S, n: S, len: int, e: DecodingError) -> bool {
    len < pixel_bytes(p.color_output, f.width, f.height) || went_wrong(o, n, e) || too_short(o, n, f.width as int * f.height as int)
}
/// a closure the extraction does not know: nothing is known about it
impl<F: FnMut(&mut OutputBuffer<'_>) -> Result<usize, DecodingError>> DataSource for F {
    uninterp spec fn ready(&self) -> bool;
    uninterp spec fn made(&self) -> Seq<u8>;
    uninterp spec fn done(&self) -> bool;
    uninterp spec fn through(&self, o: Self) -> bool;
    uninterp spec fn tried(&self, o: Self) -> bool;
    uninterp spec fn failed(&self, o: Self, e: DecodingError) -> bool;
    uninterp spec fn live(&self) -> bool;
    uninterp spec fn spoiled(&self, o: Self, e: DecodingError) -> bool;
    axiom fn lemma_refl(&self);
    #[verifier::external_body]
    fn fetch(&mut self, out: &mut OutputBuffer<'_>) -> (r: Result<usize, DecodingError>) { self(out) }
}
/// byte `j` of the RGBA form of index `i`; `o` is what was there before
pub open spec fn rgba_byte(pal: Seq<u8>, trns: Option<u8>, i: u8, j: int, o: u8) -> u8 {
    if 3 * i + 3 > pal.len() { o } else if j < 3 { pal[3 * i + j] } else if trns == Some(i) { 0 } else { 255 }
}
/// the pixels `idx` as they are put into an output buffer that holds `o`
#[verifier::opaque]
pub open spec fn shown(c: ColorOutput, pal: Seq<u8>, trns: Option<u8>, idx: Seq<u8>, o: Seq<u8>) -> Seq<u8> {
    match c {
        ColorOutput::Indexed => idx,
        ColorOutput::RGBA => Seq::new(4 * idx.len(), |j: int| rgba_byte(pal, trns, idx[j / 4], j % 4, o[j])),
    }
}
pub broadcast proof fn lemma_shown_len(c: ColorOutput, pal: Seq<u8>, t: Option<u8>, idx: Seq<u8>, o: Seq<u8>)
    ensures (#[trigger] shown(c, pal, t, idx, o)).len() == idx.len() * channels(c)
{ reveal(shown); }
pub proof fn lemma_shown_rgba(pal: Seq<u8>, t: Option<u8>, i0: Seq<u8>, x: Seq<u8>, b0: Seq<u8>)
    requires 4 * i0.len() + 4 * x.len() <= b0.len(),
    ensures shown(ColorOutput::RGBA, pal, t, i0 + x, b0) =~= shown(ColorOutput::RGBA, pal, t, i0, b0) + shown(ColorOutput::RGBA, pal, t, x, b0.skip((4 * i0.len()) as int))
{
    reveal(shown);
    let l = shown(ColorOutput::RGBA, pal, t, i0 + x, b0); let a = shown(ColorOutput::RGBA, pal, t, i0, b0); let b = shown(ColorOutput::RGBA, pal, t, x, b0.skip((4 * i0.len()) as int));
    assert forall|j: int| 0 <= j < l.len() implies l[j] == (a + b)[j] by {
        if j < 4 * i0.len() { assert((i0 + x)[j / 4] == i0[j / 4]); } else { assert((i0 + x)[j / 4] == x[(j - 4 * i0.len()) / 4]); }
    }
}
pub proof fn lemma_shown_push(pal: Seq<u8>, t: Option<u8>, all: Seq<u8>, k: int, b0: Seq<u8>, px: Seq<u8>)
    requires 0 <= k < all.len(), 4 * all.len() <= b0.len(), px.len() == 4, forall|j: int| 0 <= j < 4 ==> #[trigger] px[j] == rgba_byte(pal, t, all[k], j, b0[4 * k + j]),
    ensures shown(ColorOutput::RGBA, pal, t, all.take(k + 1), b0) =~= shown(ColorOutput::RGBA, pal, t, all.take(k), b0) + px
{
    reveal(shown);
    let l = shown(ColorOutput::RGBA, pal, t, all.take(k + 1), b0); let a = shown(ColorOutput::RGBA, pal, t, all.take(k), b0);
    assert forall|j: int| 0 <= j < l.len() implies l[j] == (a + px)[j] by {
        if j < 4 * k { assert(all.take(k + 1)[j / 4] == all.take(k)[j / 4]); } else { assert(j / 4 == k && j % 4 == j - 4 * k); assert(px[j - 4 * k] == rgba_byte(pal, t, all[k], j - 4 * k, b0[4 * k + (j - 4 * k)])); }
    }
}
pub proof fn lemma_shown_prefix(pal: Seq<u8>, t: Option<u8>, all: Seq<u8>, b0: Seq<u8>, b1: Seq<u8>)
    requires 4 * all.len() <= b1.len() <= b0.len(), b1 =~= b0.take(b1.len() as int),
    ensures shown(ColorOutput::RGBA, pal, t, all, b0) =~= shown(ColorOutput::RGBA, pal, t, all, b1)
{ reveal(shown); }
/// rows of an image
pub proof fn lemma_shown_row(c: ColorOutput, pal: Seq<u8>, t: Option<u8>, px: Seq<u8>, ob: Seq<u8>, w: int, h: int, l: int, i: int)
    requires l == w * channels(c), w >= 0, 0 <= i < h, px.len() == w * h, l * h <= ob.len(),
    ensures line_at(shown(c, pal, t, px, ob), i, l) =~= shown(c, pal, t, line_at(px, i, w), line_at(ob, i, l)), 0 <= i * l && i * l + l <= l * h, line_at(shown(c, pal, t, px, ob), i, l).len() == l
{
    reveal(shown);
    assert(0 <= i * l && i * l + l <= l * h) by (nonlinear_arith) requires 0 <= i < h, l >= 0;
    assert(0 <= i * w && i * w + w <= w * h) by (nonlinear_arith) requires 0 <= i < h, w >= 0;
    let a = line_at(shown(c, pal, t, px, ob), i, l); let r = shown(c, pal, t, line_at(px, i, w), line_at(ob, i, l));
    match c {
        ColorOutput::Indexed => {}
        ColorOutput::RGBA => {
            assert(i * l == 4 * (i * w)) by (nonlinear_arith) requires l == w * 4;
            assert forall|j: int| 0 <= j < l implies a[j] == r[j] by {
                let m = i * w;
                assert((4 * m + j) / 4 == m + j / 4 && (4 * m + j) % 4 == j % 4 && 0 <= j / 4 < w);
                assert(line_at(px, i, w)[j / 4] == px[m + j / 4]);
            }
        }
    }
}
pub open spec fn palette_of(f: Frame<'_>, g: Option<Vec<u8>>) -> Seq<u8> { match f.palette { Some(p) => p@, None => match g { Some(p) => p@, None => Seq::empty() } } }
pub open spec fn filled<S: DataSource>(p: PixelConverter, f: Frame<'_>, o: S, n: S, ob: Seq<u8>, nb: Seq<u8>, whole: bool) -> bool {
    let idx = n.made().skip(o.made().len() as int);
    &&& o.made().is_prefix_of(n.made())
    &&& nb.take((idx.len() * channels(p.color_output)) as int) =~= shown(p.color_output, palette_of(f, p.global_palette), f.transparent, idx, ob)
    &&& if whole { idx.len() * channels(p.color_output) == ob.len() } else { idx.len() * channels(p.color_output) < ob.len() && n.done() }
}
impl PixelConverter { pub open spec fn same_but_buffer(self, o: PixelConverter) -> bool { self == (PixelConverter { buffer: self.buffer, ..o }) } }

/// `s.chunks_exact_mut(n).zip(b.iter().copied().take(k))`
#[verifier::external_body]
pub struct ChunksWithBytes<'a> { it: std::iter::Zip<std::slice::ChunksExactMut<'a, u8>, std::iter::Take<std::iter::Copied<std::slice::Iter<'a, u8>>>> }
/// bytes not yet yielded, what they will be in the end, and the chunk size
pub uninterp spec fn cb_left(it: ChunksWithBytes<'_>) -> Seq<u8>;
#[verifier::prophetic]
pub uninterp spec fn cb_fin(it: ChunksWithBytes<'_>) -> Seq<u8>;
pub uninterp spec fn cb_size(it: ChunksWithBytes<'_>) -> nat;
pub uninterp spec fn cb_idx(it: ChunksWithBytes<'_>) -> Seq<u8>;
#[verifier::external_body]
pub fn chunks_with_bytes<'a>(s: &'a mut [u8], n: usize, b: &'a [u8], k: usize) -> (r: ChunksWithBytes<'a>)
    requires n > 0,
    ensures cb_left(r) == old(s)@, cb_fin(r) == final(s)@, cb_size(r) == n, cb_idx(r) == if k < b@.len() { b@.take(k as int) } else { b@ },
{
    ChunksWithBytes { it: s.chunks_exact_mut(n).zip(b.iter().copied().take(k)) }
}
impl<'a> ChunksWithBytes<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a mut [u8], u8)>)
        ensures
            cb_size(*final(self)) == cb_size(*old(self)),
            match r {
                Some(p) => {
                    &&& cb_left(*old(self)).len() >= cb_size(*old(self)) && cb_idx(*old(self)).len() > 0
                    &&& (*p.0)@ == cb_left(*old(self)).take(cb_size(*old(self)) as int) && p.1 == cb_idx(*old(self))[0]
                    &&& cb_left(*final(self)) == cb_left(*old(self)).skip(cb_size(*old(self)) as int) && cb_idx(*final(self)) == cb_idx(*old(self)).skip(1)
                    &&& cb_fin(*old(self)) == final(p.0)@ + cb_fin(*final(self)) && final(p.0)@.len() == cb_size(*old(self))
                },
                None => (cb_left(*old(self)).len() < cb_size(*old(self)) || cb_idx(*old(self)).len() == 0) && cb_fin(*old(self)) == cb_left(*old(self)),
            }
    { self.it.next() }
}
}
verus!{
/// the rows of a frame in the order in which they are stored
pub open spec fn row_order(f: Frame<'_>) -> Seq<int> { if !f.interlaced { Seq::new(f.height as nat, |i: int| i) } else if f.height == 0 { Seq::empty() } else { pass_rows(f.height as nat, 0, 0) } }
pub open spec fn line_at<T>(s: Seq<T>, y: int, l: int) -> Seq<T> { s.subrange(y * l, y * l + l) }
/// `nb` is `ob` with the image of pixels `px` put into it
pub open spec fn image_of(p: PixelConverter, f: Frame<'_>, px: Seq<u8>, ob: Seq<u8>, nb: Seq<u8>) -> bool {
    let (l, w, h) = (line_bytes(p.color_output, f.width) as int, f.width as int, f.height as int); let rows = row_order(f);
    &&& px.len() == w * h && nb.len() == ob.len() && l * h <= nb.len() && nb.skip(l * h) =~= ob.skip(l * h)
    &&& forall|i: int| 0 <= i < h ==> line_at(nb, #[trigger] rows[i], l) =~= shown(p.color_output, palette_of(f, p.global_palette), f.transparent, line_at(px, i, w), line_at(ob, rows[i], l))
}
/// row `rows[k]` was written last
pub proof fn lemma_lines(rows: Seq<int>, h: int, k: int, l: int, w: int, a: Seq<u8>, b: Seq<u8>, fl: Seq<u8>, p: Seq<u8>, x: Seq<u8>)
    requires rows.len() == h, rows.no_duplicates(), forall|r: int| rows.contains(r) <==> 0 <= r < h, 0 <= k < h, l >= 0, w >= 0, l * h <= a.len(),
        fl.len() == l, b =~= a.take(rows[k] * l) + fl + a.skip(rows[k] * l + l), p.len() == w * k, x.len() == w,
    ensures b.len() == a.len(), line_at(b, rows[k], l) =~= fl, forall|i: int| 0 <= i < h && i != k ==> line_at(b, #[trigger] rows[i], l) =~= line_at(a, rows[i], l),
        b.skip(l * h) =~= a.skip(l * h), line_at(p + x, k, w) =~= x, forall|i: int| 0 <= i < k ==> #[trigger] line_at(p + x, i, w) =~= line_at(p, i, w),
{
    assert(rows.contains(rows[k]));
    let y = rows[k];
    assert(0 <= y * l && y * l + l <= l * h) by (nonlinear_arith) requires 0 <= y < h, l >= 0;
    assert forall|i: int| 0 <= i < h && i != k implies line_at(b, #[trigger] rows[i], l) =~= line_at(a, rows[i], l) by {
        assert(rows.contains(rows[i]) && rows[i] != y);
        let z = rows[i];
        assert(0 <= z * l && z * l + l <= l * h && (z * l + l <= y * l || z * l >= y * l + l)) by (nonlinear_arith) requires 0 <= z < h, l >= 0, 0 <= y < h, z != y;
    }
    assert(k * w == w * k) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < k implies #[trigger] line_at(p + x, i, w) =~= line_at(p, i, w) by {
        assert(0 <= i * w && i * w + w <= w * k) by (nonlinear_arith) requires 0 <= i < k, w >= 0;
    }
}
/// all rows were written at once
pub proof fn lemma_whole(p: PixelConverter, f: Frame<'_>, px: Seq<u8>, ob: Seq<u8>, nb: Seq<u8>)
    requires !f.interlaced, ({ let (l, w, h) = (line_bytes(p.color_output, f.width) as int, f.width as int, f.height as int);
        l * h <= ob.len() && nb.len() == ob.len() && nb.skip(l * h) =~= ob.skip(l * h) && px.len() * channels(p.color_output) == l * h
        && nb.take(l * h) =~= shown(p.color_output, palette_of(f, p.global_palette), f.transparent, px, ob.take(l * h)) }),
    ensures image_of(p, f, px, ob, nb)
{
    let (l, w, h, c) = (line_bytes(p.color_output, f.width) as int, f.width as int, f.height as int, channels(p.color_output) as int);
    let (pal, t) = (palette_of(f, p.global_palette), f.transparent);
    assert(px.len() == w * h) by (nonlinear_arith) requires px.len() * c == l * h, l == w * c, c == 1 || c == 4;
    assert forall|i: int| 0 <= i < h implies line_at(nb, #[trigger] row_order(f)[i], l) =~= shown(p.color_output, pal, t, line_at(px, i, w), line_at(ob, i, l)) by {
        lemma_shown_row(p.color_output, pal, t, px, ob.take(l * h), w, h, l, i);
        assert(line_at(nb, i, l) =~= line_at(nb.take(l * h), i, l)); assert(line_at(ob, i, l) =~= line_at(ob.take(l * h), i, l));
    }
}
pub open spec fn image_read<S: DataSource>(p: PixelConverter, f: Frame<'_>, o: S, n: S, ob: Seq<u8>, nb: Seq<u8>) -> bool {
    o.made().is_prefix_of(n.made()) && image_of(p, f, n.made().skip(o.made().len() as int), ob, nb)
}
pub open spec fn same_frame_but(o: Frame<'_>, n: Frame<'_>) -> bool {
    n.delay == o.delay && n.dispose == o.dispose && n.transparent == o.transparent && n.needs_user_input == o.needs_user_input && n.top == o.top && n.left == o.left && n.width == o.width && n.height == o.height && n.palette == o.palette
}
/// pass in which row `r` is stored
pub open spec fn pass_of(r: int) -> nat { if r % 8 == 0 { 0 } else if r % 8 == 4 { 1 } else if r % 4 == 2 { 2 } else { 3 } }
pub open spec fn rest_has(len: nat, p: nat, next: nat, r: int) -> bool { 0 <= r < len && (pass_of(r) == p && r >= next || pass_of(r) > p) }
#[verifier::spinoff_prover]
pub proof fn lemma_pass_rows(len: nat, p: nat, next: nat)
    requires len > 0, p <= 4, p < 4 ==> pass_of(next as int) == p,
    ensures pass_rows(len, p, next).no_duplicates(), forall|r: int| pass_rows(len, p, next).contains(r) <==> rest_has(len, p, next, r),
    decreases 4 - p, if next < len { len - next } else { 0 }
{
    let s = pass_rows(len, p, next);
    if p >= 4 { }
    else if next >= len {
        lemma_pass_rows(len, p + 1, pass_start(p + 1));
        assert forall|r: int| s.contains(r) <==> rest_has(len, p, next, r) by { assert(s.contains(r) <==> rest_has(len, p + 1, pass_start(p + 1), r)); if rest_has(len, p, next, r) && pass_of(r) == p + 1 { assert(r >= pass_start(p + 1)); } }
    } else {
        let t = pass_rows(len, p, next + pass_step(p));
        assert(pass_of((next + pass_step(p)) as int) == p);
        lemma_pass_rows(len, p, next + pass_step(p));
        assert(s == seq![next as int] + t);
        assert forall|r: int| s.contains(r) <==> rest_has(len, p, next, r) by {
            assert(t.contains(r) <==> rest_has(len, p, next + pass_step(p), r));
            if s.contains(r) { let i = s.index_of(r); if i > 0 { assert(t[i - 1] == r); } }
            if r == next { assert(s[0] == r); }
            if t.contains(r) { let i = t.index_of(r); assert(s[i + 1] == r); }
        }
        assert(!t.contains(next as int)) by { assert(!rest_has(len, p, next + pass_step(p), next as int)); }
    }
}
/// four passes give every row of the image exactly once
pub proof fn lemma_rows(f: Frame<'_>)
    ensures row_order(f).len() == f.height, row_order(f).no_duplicates(), forall|r: int| row_order(f).contains(r) <==> 0 <= r < f.height,
{
    let s = row_order(f);
    if f.interlaced && f.height > 0 {
        lemma_pass_rows(f.height as nat, 0, 0);
        assert forall|r: int| s.contains(r) <==> 0 <= r < f.height by { assert(s.contains(r) <==> rest_has(f.height as nat, 0, 0, r)); }
        s.unique_seq_to_set();
        vstd::set_lib::lemma_int_range(0, f.height as int);
        assert(s.to_set() =~= vstd::set_lib::set_int_range(0, f.height as int));
    } else if !f.interlaced {
        assert forall|r: int| s.contains(r) <==> 0 <= r < f.height by { if 0 <= r < f.height { assert(s[r] == r); } }
    }
}
}
//// file reader/decoder.rs
//// type FrameDecoder
/*pub*/
//// fn FrameDecoder::new props=C01,C09,C13,C25
#[verus_spec(r => ensures r.lzw_reader.wf(), r.lzw_reader.check_for_end_code == options.check_for_end_code, r.pixel_converter.memory_limit == options.memory_limit, r.pixel_converter.color_output == options.color_output, r.pixel_converter.global_palette is None)]
//// fn FrameDecoder::set_global_palette props=C01,C13,C25
#[verus_spec(ensures final(self).lzw_reader == old(self).lzw_reader, final(self).pixel_converter == (PixelConverter { global_palette: if palette@.len() > 0 { Some(palette) } else { None }, ..old(self).pixel_converter }))]
//// fn FrameDecoder::buffer_size props=C01,C09,C13,C25
#[verus_spec(r => ensures r == pixel_bytes(self.pixel_converter.color_output, frame.width, frame.height))]
//// start
proof!{ lemma_pixel_bytes(self.pixel_converter.color_output, frame.width, frame.height); }
//// fn FrameDecoder::decode_lzw_encoded_frame_into_buffer props=C01,C02,C13,C14,C25
//// lift __src
#[verus_spec(r => requires old(self).lzw_reader.wf()
  ensures final(self).lzw_reader.wf(), final(self).pixel_converter.same_but_buffer(old(self).pixel_converter), final(self).lzw_reader.check_for_end_code == old(self).lzw_reader.check_for_end_code,
    final(buf)@.len() == old(buf)@.len(),
    /*C13,C25*/ r is Ok ==> lzw_image(old(self).pixel_converter, *frame, cow_bytes(frame.buffer), old(buf)@, final(buf)@),
    /*C13,C25*/ 1 <= lzw_min(cow_bytes(frame.buffer)) <= 11 || r is Err,
    /*C13,C14,C25*/ r is Err && frame.width > 0 && frame.height > 0 ==> old(buf)@.len() < pixel_bytes(old(self).pixel_converter.color_output, frame.width, frame.height) || lzw_image_bad(*frame, cow_bytes(frame.buffer), old(self).lzw_reader.check_for_end_code))]
//// start
proof!{ broadcast use {axiom_deref, axiom_deref_cow, qm::axiom_question_mark}; }
//// at let lzw_reader = &mut
proof!{ assert(min_code_size == lzw_min(cow_bytes(frame.buffer)) && data@ =~= lzw_data(cow_bytes(frame.buffer))); }
//// at self.pixel_converter.read_into_buffer
let mut __src = LzwSource { lzw_reader: lzw_reader, data: data };
proof_decl!{ let ghost s0 = __src; }
proof!{ __src.lemma_refl(); assert(s0.through(s0) && s0.tried(s0)); assert(s0.all() =~= lzw_data(cow_bytes(frame.buffer))); assert(s0.made().len() == 0); }
//// at Ok(())
proof!{
    assert(__src.through(s0));
    let l = __src.lzw_reader.lz();
    assert(s0.all() =~= lzw_data(cow_bytes(frame.buffer)));
    axiom_lzw_prefix(l.size, l.fed, __src.data@);
    assert(__src.made().skip(0) =~= __src.made());
    assert(__src.made() =~= lzw_out(l.size, s0.all()).take(__src.made().len() as int));
}
//// fn FrameDecoder::decode_lzw_encoded_frame props=C01,C09,C13,C14,C25
#[verus_spec(r => requires old(self).lzw_reader.wf()
  ensures final(self).lzw_reader.wf(), final(self).pixel_converter.same_but_buffer(old(self).pixel_converter), final(self).lzw_reader.check_for_end_code == old(self).lzw_reader.check_for_end_code,
    /*C09*/ r is Ok ==> within(old(self).pixel_converter.memory_limit, pixel_bytes(old(self).pixel_converter.color_output, old(frame).width, old(frame).height)),
    /*C09,C13,C14,C25*/ r is Err && old(frame).width > 0 && old(frame).height > 0 ==> !within(old(self).pixel_converter.memory_limit, pixel_bytes(old(self).pixel_converter.color_output, old(frame).width, old(frame).height)) || lzw_image_bad(*old(frame), cow_bytes(old(frame).buffer), old(self).lzw_reader.check_for_end_code),
    /*C13,C25*/ r is Ok ==> final(frame).buffer is Owned && same_frame_but(*old(frame), *final(frame)) && !final(frame).interlaced,
    /*C13,C25*/ r is Ok ==> cow_bytes(final(frame).buffer).len() == pixel_bytes(old(self).pixel_converter.color_output, old(frame).width, old(frame).height)
       && lzw_image(old(self).pixel_converter, *old(frame), cow_bytes(old(frame).buffer), zeros(cow_bytes(final(frame).buffer).len()), cow_bytes(final(frame).buffer)))]
//// start
proof!{ broadcast use qm::axiom_question_mark; }
//// at self.decode_lzw_encoded_frame_into
proof!{ assert(vec@ =~= zeros(vec@.len())); }
//// copybody FrameDecoder::decode_lzw_encoded_frame_into_buffer::{closure} props=C01,C12,C13,C25 => pub fn fetch_pixels(&mut self, @P@: &mut OutputBuffer<'_>) -> Result<usize, DecodingError>
verus!{
pub struct LzwSource<'a> { pub lzw_reader: &'a mut LzwReader, pub data: &'a [u8] }
impl<'a> LzwSource<'a> {
    /// the whole stream
    pub open spec fn all(&self) -> Seq<u8> { self.lzw_reader.lz().fed + self.data@ }
}
impl<'a> DataSource for LzwSource<'a> {
    open spec fn ready(&self) -> bool { self.lzw_reader.wf() && self.lzw_reader.decoder is Some && lz_ok(self.lzw_reader.lz()) }
    open spec fn made(&self) -> Seq<u8> { self.lzw_reader.lz().made }
    open spec fn done(&self) -> bool { self.made() == lzw_out(self.lzw_reader.lz().size, self.all()) }
    open spec fn through(&self, o: Self) -> bool { self.all() == o.all() && self.lzw_reader.lz().size == o.lzw_reader.lz().size }
    #[verifier::prophetic]
    open spec fn tried(&self, o: Self) -> bool { self.lzw_reader.wf() && self.lzw_reader.check_for_end_code == o.lzw_reader.check_for_end_code && *final(self.lzw_reader) == *final(o.lzw_reader) }
    #[verifier::prophetic]
    open spec fn failed(&self, o: Self, e: DecodingError) -> bool { self.tried(o) }
    open spec fn live(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn spoiled(&self, o: Self, e: DecodingError) -> bool { lzw_spoilt_all(o.lzw_reader.lz().size, o.all(), o.lzw_reader.check_for_end_code) }
    proof fn lemma_refl(&self) {}
    fn fetch(&mut self, out: &mut OutputBuffer<'_>) -> (r: Result<usize, DecodingError>) { self.fetch_pixels(out) }
}
}
#[verus_verify]
impl<'a> LzwSource<'a> {
#[verus_spec(r => requires old(self).ready()
  ensures r is Ok ==> final(self).ready(), final(self).tried(*old(self)), r is Ok ==> final(self).through(*old(self)), (*final(@P@)).kept(*old(@P@)),
    r matches Ok(n) ==> *old(@P@) is Slice ==> n <= old(@P@).room(),
    r is Err ==> *old(@P@) is Slice && old(@P@).room() > 0 ==> lzw_spoilt_all(old(self).lzw_reader.lz().size, old(self).all(), old(self).lzw_reader.check_for_end_code),
    r matches Ok(n) ==> *old(@P@) is Slice && old(@P@).room() > 0 ==> final(self).made() == old(self).made() + final(@P@).cur().take(n as int),
    r matches Ok(n) ==> *old(@P@) is Slice && old(@P@).room() > 0 && n == 0 ==> final(self).done())]
@BODY@
}
//// rewrite ident:lzw_reader => self.lzw_reader
//// rewrite ident:data => self.data
//// loop 0 loop
#[verus_spec(
  invariant self.ready(), self.through(*old(self)), self.tried(*old(self)), (*@P@).kept(*old(@P@)),
    (*@P@) is Slice && (*@P@).room() > 0 ==> self.made() == old(self).made(),
  decreases self.data@.len()
)]
//// start
proof!{ broadcast use qm::axiom_question_mark; }
//// at let (bytes_read, bytes_written)
proof_decl!{ let ghost d0 = self.data@; let ghost l0 = *self.lzw_reader; let ghost o0 = *@P@; }
//// at if bytes_written > 0
proof!{
    assert(l0.lz().made + Seq::<u8>::empty() =~= l0.lz().made); assert((*@P@).cur().take(0) =~= Seq::<u8>::empty());
    assert(self.data@ =~= d0.skip(bytes_read as int));
    if self.data@.len() == 0 { assert(self.all() =~= self.lzw_reader.lz().fed); }
}
//// at data = data.get
proof!{ assert(l0.lz().fed + d0 =~= self.lzw_reader.lz().fed + d0.skip(bytes_read as int)); axiom_lzw_prefix(l0.lz().size, self.lzw_reader.lz().fed, d0.skip(bytes_read as int)); }
//// tail
use crate::reader::{pixel_bytes, converter::*};
use crate::vspec::cow::{axiom_deref, axiom_deref_cow};
verus!{
/// minimum code size and LZW stream in the buffer of a frame that was not decoded
pub open spec fn lzw_min(b: Seq<u8>) -> u8 { if b.len() > 0 { b[0] } else { 2 } }
pub open spec fn lzw_data(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 { b.skip(1) } else { b } }
/// the image data `b` of a frame that was not decoded does not stand for its pixels
pub open spec fn lzw_image_bad(f: Frame<'_>, b: Seq<u8>, check: bool) -> bool {
    !(1 <= lzw_min(b) <= 11) || lzw_spoilt_all(lzw_min(b), lzw_data(b), check) || lzw_out(lzw_min(b), lzw_data(b)).len() < f.width as int * f.height as int
}
/// the stream has an invalid code, or no end code where one is asked for
pub open spec fn lzw_spoilt_all(m: u8, d: Seq<u8>, check: bool) -> bool { lzw_bad(m, d) || check && !lzw_done(m, d) }
/// the image made of the LZW data `b`
pub open spec fn lzw_image(p: PixelConverter, f: Frame<'_>, b: Seq<u8>, ob: Seq<u8>, nb: Seq<u8>) -> bool {
    let all = lzw_out(lzw_min(b), lzw_data(b)); let n = f.width as int * f.height as int;
    n <= all.len() && image_of(p, f, all.take(n), ob, nb)
}
}
