//// file common.rs
//// fn Frame::from_palette_pixels props=C26
//// rewrite pixels.into() => vx_into(pixels)
//// rewrite palette.into() => vx_into(palette)
#[verus_spec(r => requires may_panic() || vx_bytes(pixels).len() == width * height && vx_bytes(palette).len() <= 768
  ensures vx_bytes(pixels).len() == width * height && vx_bytes(palette).len() <= 768,
    plain_frame(r, width, height) && cow_bytes(r.buffer) == vx_bytes(pixels) && r.palette is Some && r.palette->0@ == vx_bytes(palette) && r.transparent == transparent)]
//// start
proof!{ assert(0 <= width * height <= 65535 * 65535) by (nonlinear_arith) requires 0 <= width <= 65535, 0 <= height <= 65535; }
//// fn Frame::from_indexed_pixels props=C26
//// rewrite pixels.into() => vx_into(pixels)
#[verus_spec(r => requires may_panic() || vx_bytes(pixels).len() == width * height
  ensures vx_bytes(pixels).len() == width * height,
    plain_frame(r, width, height) && cow_bytes(r.buffer) == vx_bytes(pixels) && r.palette is None && r.transparent == transparent)]
//// start
proof!{ assert(0 <= width * height <= 65535 * 65535) by (nonlinear_arith) requires 0 <= width <= 65535, 0 <= height <= 65535; }
//// fn Frame::from_rgba props=C26
#[verus_spec(r => requires may_panic() || old(pixels)@.len() == width * height * 4
  ensures old(pixels)@.len() == width * height * 4, drawn(r, width, height, old(pixels)@))]
//// fn Frame::from_rgb props=C26
#[verus_spec(r => requires may_panic() || pixels@.len() == width * height * 3
  ensures pixels@.len() == width * height * 3, drawn(r, width, height, with_alpha(pixels@)))]
//// fn Frame::from_rgb_speed props=C26
//// rewrite pixels.chunks_exact( => vx_chunks(pixels,
#[verus_spec(r => requires may_panic() || pixels@.len() == width * height * 3 && 1 <= speed <= 30
  ensures pixels@.len() == width * height * 3 && 1 <= speed <= 30, drawn(r, width, height, with_alpha(pixels@)))]
//// start
proof!{ assert(0 <= width * height <= 65535 * 65535) by (nonlinear_arith) requires 0 <= width <= 65535, 0 <= height <= 65535; }
//// loop 0 for desugar plain
#[verus_spec(
  invariant ck_of(__it0) == pixels@, ck_size(__it0) == 3, vec@ =~= with_alpha(pixels@.take(3 * ck_at(__it0))), 0 <= ck_at(__it0) <= pixels@.len() / 3, pixels@.len() == width * height * 3,
  ensures ck_at(__it0) == pixels@.len() / 3,
  decreases pixels@.len() - ck_at(__it0)
)]
//// afterloop 0
proof!{ assert(pixels@.take(3 * (width * height)) =~= pixels@); }
//// fn Frame::from_rgba_speed props=C26
//// rewrite pixels.chunks_exact_mut( => vx_chunks_mut(pixels, 
//// rewrite pixels.chunks_exact( => vx_chunks(pixels,
//// rewrite colors.into_iter() => vx_all(colors)
//// rewrite colors_vec.sort_unstable() => vx_sort(&mut colors_vec)
//// rewrite colors_vec.iter() => vx_each(&colors_vec)
//// rewrite colors_vec.into_iter().zip(0..=255) => vx_number(colors_vec)
//// rewrite |&(r, g, b, _a)| [r, g, b] => #[verus_spec(o: [u8; 3] => ensures o@ =~= seq![c.0, c.1, c.2])] |c: &Rgba| { let (r, g, b, _a) = *c; [r, g, b] }
//// rewrite | pixel: &[u8] | => #[verus_spec(x: u8 => requires pixel@.len() == 4, ensures x == looked_up(colors_lookup@, pixel@))] |pixel: &[u8]|
//// rewrite map(|pix| => map(#[verus_spec(x: u8 => requires pix@.len() == 4)] |pix: &[u8]|
//// rewrite transparent.map(|t| nq => vx_map(transparent, |t: [u8; 4]| nq
//// rewrite transparent.map(|t| index_of(&t)) => vx_map(transparent, #[verus_spec(x: u8 => ensures x == looked_up(colors_lookup@, t@))] |t: [u8; 4]| index_of(&t))
//// rewrite transparent.map( => vx_map(transparent, 
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
#[verus_spec(r => requires may_panic() || old(pixels)@.len() == width * height * 4 && 1 <= speed <= 30
  ensures old(pixels)@.len() == width * height * 4 && 1 <= speed <= 30, drawn(r, width, height, old(pixels)@))]
//// start
proof_decl!{ let ghost p0 = pixels@; let ghost n = width as int * height as int; let ghost mut k: int = 0; }
proof!{ broadcast use {axiom_key_rgba, vstd::std_specs::hash::group_hash_axioms}; assert(0 <= width * height <= 65535 * 65535) by (nonlinear_arith) requires 0 <= width <= 65535, 0 <= height <= 65535; }
//// loop 0 for desugar plain
proof_decl!{ let ghost q0 = cm_fin(__it0); }
proof!{ assert(normal(p0, clear_of(transparent), 0) =~= Seq::empty()); assert(p0.skip(0) =~= p0); }
#[verus_spec(
  invariant p0.len() == 4 * n, 0 <= k <= n, cm_size(__it0) == 4, cm_left(__it0) == p0.skip(4 * k), painted(p0, transparent, k),
    q0 =~= normal(p0, clear_of(transparent), k) + cm_fin(__it0),
  ensures k == n, cm_fin(__it0).len() == 0,
  decreases n - k
)]
//// loopstart 0
proof_decl!{ let ghost t0 = transparent; let ghost px0 = pix@; }
proof!{ assert(px0 =~= p0.subrange(4 * k, 4 * k + 4)); assert(p0.skip(4 * k).skip(4) =~= p0.skip(4 * (k + 1))); }
//// loopend 0
proof!{ if !opaque(p0, k) && t0 is None { assert(transparent->0@ =~= px0); } lemma_painted(p0, t0, transparent, k, pix@); k = k + 1; }
//// afterloop 0
proof_decl!{ let ghost q = pixels@; let ghost t = transparent; }
proof!{ assert(q =~= normal(p0, clear_of(t), n)); }
//// loop 1 for desugar plain
#[verus_spec(
  invariant pixels@ == q, q.len() == 4 * n, ck_of(__it1) == q, ck_size(__it1) == 4, 0 <= ck_at(__it1) <= n, colors@ =~= rgbas(q).take(ck_at(__it1)).to_set(), colors@.len() <= 256,
  ensures ck_at(__it1) == n,
  decreases n - ck_at(__it1)
)]
//// loopstart 1
proof!{ assert(ck_size(__it1) == 4); assert(ck_at(__it1) * ck_size(__it1) <= ck_of(__it1).len()); assert(ck_at(__it1) * 4 <= q.len()); assert(ck_at(__it1) - 1 < q.len() / 4); lemma_rgbas(q, ck_at(__it1) - 1); }
//// at let nq =
proof!{ if few(p0) { lemma_many(p0, t, q, ck_at(__it1), colors@); } }
//// afterloop 1
proof!{ assert(rgbas(q).take(n) =~= rgbas(q)); }
//// at let index_of =
proof!{
    assert forall|i: int| 0 <= i < colors_vec0.len() implies palette@.subrange(3 * i, 3 * i + 3) == #[trigger] rgb_of(colors_vec0[i]) by {
        let o = choose|o: Seq<[u8; 3]>| o.len() == colors_vec0.len() && palette@ == #[trigger] flat3(o) && forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j])@ =~= seq![colors_vec0[j].0, colors_vec0[j].1, colors_vec0[j].2];
        lemma_flat3(o, i);
        assert(o[i]@ =~= rgb_of(colors_vec0[i]));
    }
    assert(colors_vec0.len() <= 256) by { colors_vec0.unique_seq_to_set(); }
    lemma_exact(p0, t, q, colors_vec0, palette@, colors_lookup@);
}
//// at let colors_lookup
proof_decl!{ let ghost colors_vec0 = colors_vec@; }
//// tail
use crate::vspec::it::*;
verus!{
/// `0 <= i`-th pixel of RGBA data is opaque
pub open spec fn opaque(p: Seq<u8>, i: int) -> bool { p[4 * i + 3] != 0 }
/// the transparent colour found in the first k pixels
pub open spec fn painted(p: Seq<u8>, t: Option<[u8; 4]>, k: int) -> bool {
    if t is Some { t->0@[3] == 0 && exists|i: int| 0 <= i < k && !(#[trigger] opaque(p, i)) } else { forall|i: int| 0 <= i < k ==> #[trigger] opaque(p, i) }
}
pub open spec fn clear_of(t: Option<[u8; 4]>) -> Seq<u8> { if t is Some { t->0@ } else { seq![0u8, 0u8, 0u8, 0u8] } }
/// the first k pixels made fully opaque or of the transparent colour t
pub open spec fn normal(p: Seq<u8>, t: Seq<u8>, k: int) -> Seq<u8> { Seq::new((4 * k) as nat, |x: int| if !opaque(p, x / 4) { t[x % 4] } else if x % 4 == 3 { 255u8 } else { p[x] }) }
pub open spec fn rgba(p: Seq<u8>, i: int) -> Rgba { (p[4 * i], p[4 * i + 1], p[4 * i + 2], p[4 * i + 3]) }
pub open spec fn rgbas(p: Seq<u8>) -> Seq<Rgba> { Seq::new((p.len() / 4) as nat, |i: int| rgba(p, i)) }
pub proof fn lemma_painted(p: Seq<u8>, t0: Option<[u8; 4]>, t: Option<[u8; 4]>, k: int, px: Seq<u8>)
    requires painted(p, t0, k), 4 * k + 4 <= p.len(), 0 <= k, px.len() == 4,
      if opaque(p, k) { t == t0 && px =~= p.subrange(4 * k, 4 * k + 3).push(255) } else { t is Some && px == t->0@ && t->0@ == if t0 is Some { t0->0@ } else { p.subrange(4 * k, 4 * k + 4) } },
    ensures painted(p, t, k + 1), normal(p, clear_of(t), k + 1) =~= normal(p, clear_of(t0), k) + px,
{
    if t is Some { if t0 is Some { let y = choose|y: int| 0 <= y < k && !(#[trigger] opaque(p, y)); assert(!opaque(p, y) && 0 <= y < k + 1); } else { assert(!opaque(p, k)); } }
    assert forall|x: int| 0 <= x < 4 * k implies normal(p, clear_of(t), k + 1)[x] == normal(p, clear_of(t0), k)[x] by { assert(0 <= x / 4 < k); if t0 is None { assert(opaque(p, x / 4)); } }
}
pub proof fn lemma_rgbas(q: Seq<u8>, k: int)
    requires 0 <= k < q.len() / 4,
    ensures rgbas(q).take(k + 1).to_set() =~= rgbas(q).take(k).to_set().insert(rgba(q, k)),
{
    let a = rgbas(q).take(k + 1); let b = rgbas(q).take(k);
    assert(a =~= b.push(rgba(q, k)));
    assert forall|c: Rgba| a.contains(c) implies b.contains(c) || c == rgba(q, k) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; if i < k { assert(b[i] == c); } }
    assert forall|c: Rgba| b.contains(c) || c == rgba(q, k) implies a.contains(c) by { if c == rgba(q, k) { assert(a[k] == c); } else { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; assert(a[i] == c); } }
}
/// the colour that stands for c when the transparent colour is t
pub open spec fn stands(t: Option<[u8; 4]>, c: Rgba) -> Rgba { if c.3 == 0 { (clear_of(t)[0], clear_of(t)[1], clear_of(t)[2], 0u8) } else { c } }
pub proof fn lemma_stands(p: Seq<u8>, t: Option<[u8; 4]>, q: Seq<u8>, i: int)
    requires p.len() % 4 == 0, painted(p, t, p.len() as int / 4), q =~= normal(p, clear_of(t), p.len() as int / 4), 0 <= i < p.len() / 4,
    ensures rgba(q, i) == stands(t, colour(p, i)), q.len() == p.len(),
{
    assert(q[4 * i + 0] == rgba(q, i).0); assert(q[4 * i + 1] == rgba(q, i).1); assert(q[4 * i + 2] == rgba(q, i).2); assert(q[4 * i + 3] == rgba(q, i).3);
}
pub proof fn lemma_many(p: Seq<u8>, t: Option<[u8; 4]>, q: Seq<u8>, k: int, cs: Set<Rgba>)
    requires p.len() % 4 == 0, painted(p, t, p.len() as int / 4), q =~= normal(p, clear_of(t), p.len() as int / 4), 0 <= k <= p.len() / 4, cs == rgbas(q).take(k).to_set(), few(p),
    ensures cs.len() <= 256,
{
    let s = choose|s: Seq<Rgba>| s.len() <= 256 && #[trigger] has_colours(s, p);
    let m = s.map_values(|c: Rgba| stands(t, c));
    assert(cs.subset_of(m.to_set())) by {
        assert forall|c: Rgba| cs.contains(c) implies m.contains(c) by {
            let i = choose|i: int| 0 <= i < k && rgbas(q).take(k)[i] == c;
            lemma_stands(p, t, q, i);
            assert(s.contains(colour(p, i)));
            let j = choose|j: int| 0 <= j < s.len() && s[j] == colour(p, i);
            assert(m[j] == c);
        }
    }
    m.lemma_cardinality_of_set();
    vstd::set_lib::lemma_len_subset(cs, m.to_set());
}
#[verifier::spinoff_prover]
pub proof fn lemma_exact(p: Seq<u8>, t: Option<[u8; 4]>, q: Seq<u8>, cv: Seq<Rgba>, pal: Seq<u8>, m: Map<Rgba, u8>)
    requires p.len() % 4 == 0, painted(p, t, p.len() as int / 4), q =~= normal(p, clear_of(t), p.len() as int / 4), cv.no_duplicates(), cv.to_set() == rgbas(q).to_set(), cv.len() <= 256,
        pal.len() == 3 * cv.len(), forall|i: int| 0 <= i < cv.len() ==> pal.subrange(3 * i, 3 * i + 3) == #[trigger] rgb_of(cv[i]),
        forall|c: Rgba| #[trigger] m.contains_key(c) <==> cv.contains(c), forall|i: int| 0 <= i < cv.len() ==> m[#[trigger] cv[i]] == i as u8,
    ensures forall|i: int, x: u8, tr: Option<u8>| 0 <= i < p.len() / 4 && x == looked_up(m, chunk(q, 4, i)) && tr == (match t { Some(c) => Some(looked_up(m, c@)), None => None }) ==> #[trigger] pixel_kept(pal, tr, p, i, x),
{
    assert forall|i: int, x: u8, tr: Option<u8>| 0 <= i < p.len() / 4 && x == looked_up(m, chunk(q, 4, i)) && tr == (match t { Some(c) => Some(looked_up(m, c@)), None => None }) implies #[trigger] pixel_kept(pal, tr, p, i, x) by {
        lemma_stands(p, t, q, i);
        let c = rgba(q, i);
        assert(rgbas(q)[i] == c); assert(rgbas(q).to_set().contains(c)); assert(cv.to_set().contains(c)); assert(cv.contains(c));
        let j = choose|j: int| 0 <= j < cv.len() && cv[j] == c;
        let b = chunk(q, 4, i);
        assert((b[0], b[1], b[2], b[3]) == c);
        assert(m.contains_key(c)); assert(x == m[cv[j]]); assert(x == j);
        assert(rgb_of(cv[j]) == pal.subrange(3 * j, 3 * j + 3));
        if opaque(p, i) {
            assert(rgb_of(c) =~= p.subrange(4 * i, 4 * i + 3));
            if t is Some {
                let y = choose|y: int| 0 <= y < p.len() / 4 && !(#[trigger] opaque(p, y));
                lemma_stands(p, t, q, y);
                assert(rgbas(q)[y] == rgba(q, y)); assert(rgbas(q).to_set().contains(rgba(q, y))); assert(cv.to_set().contains(rgba(q, y)));
                let tc = (t->0@[0], t->0@[1], t->0@[2], t->0@[3]);
                if m.contains_key(tc) { let jj = choose|jj: int| 0 <= jj < cv.len() && cv[jj] == tc; assert(tr == Some(jj as u8)); assert(jj != j); }
            }
        }
    }
}
pub open spec fn rgb_of(c: Rgba) -> Seq<u8> { seq![c.0, c.1, c.2] }
/// colour of a pixel when all transparent pixels are the same colour
pub open spec fn colour(p: Seq<u8>, i: int) -> Rgba { if opaque(p, i) { (p[4 * i], p[4 * i + 1], p[4 * i + 2], 255u8) } else { (0u8, 0u8, 0u8, 0u8) } }
/// at most 256 distinct colours: some list of 256 has them all
pub open spec fn few(p: Seq<u8>) -> bool { exists|s: Seq<Rgba>| s.len() <= 256 && #[trigger] has_colours(s, p) }
pub open spec fn has_colours(s: Seq<Rgba>, p: Seq<u8>) -> bool { forall|i: int| 0 <= i < p.len() / 4 ==> s.contains(#[trigger] colour(p, i)) }
pub open spec fn plain_frame(f: Frame<'_>, w: u16, h: u16) -> bool {
    f.width == w && f.height == h && f.delay == 0 && f.dispose == DisposalMethod::Keep && !f.needs_user_input && f.top == 0 && f.left == 0 && !f.interlaced
}
pub open spec fn looked_up(m: Map<Rgba, u8>, p: Seq<u8>) -> u8 { let c = (p[0], p[1], p[2], p[3]); if m.contains_key(c) { m[c] } else { 0 } }
/// the frame shows the RGBA pixels p (exactly if they have at most 256 colours)
pub open spec fn drawn(f: Frame<'_>, w: u16, h: u16, p: Seq<u8>) -> bool {
    let b = cow_bytes(f.buffer);
    &&& plain_frame(f, w, h) && b.len() == w * h && f.palette is Some && f.palette->0@.len() <= 768 && f.palette->0@.len() % 3 == 0
    &&& few(p) ==> forall|i: int| 0 <= i < b.len() ==> #[trigger] pixel_kept(f.palette->0@, f.transparent, p, i, b[i])
}
/// index x shows pixel i of p
pub open spec fn pixel_kept(pal: Seq<u8>, t: Option<u8>, p: Seq<u8>, i: int, x: u8) -> bool {
    if opaque(p, i) { 3 * x + 3 <= pal.len() && pal.subrange(3 * x as int, 3 * x + 3) == p.subrange(4 * i, 4 * i + 3) && t != Some(x) }
    else { t == Some(x) }
}
/// RGB pixels as opaque RGBA pixels
pub open spec fn with_alpha(p: Seq<u8>) -> Seq<u8> { Seq::new((p.len() / 3 * 4) as nat, |k: int| if k % 4 == 3 { 255u8 } else { p[k / 4 * 3 + k % 4] }) }

}
