//! Ghost module added to the verified copy of the crate: specifications of external types and functions
//! (trusted; every `assume_specification`, external trait contract and `axiom` is listed in the evidence),
//! pure specification functions and lemmas.
#![allow(unused_imports)]
use vstd::prelude::*;
use std::io;

pub mod wr {
use vstd::prelude::*; use std::io; use super::wrote;
verus! {
// ---------------------------------------------------------------- std::io::Write
/// `written()`: all bytes the writer has accepted so far.
/// `room()`: how many more bytes it is certain to accept without an error (0 if nothing is known).
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: std::io::Write;
    spec fn written(&self) -> Seq<u8>;
    spec fn room(&self) -> nat;
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
        ensures
            match r {
                Ok(n) => n <= buf@.len() && (old(self).room() >= buf@.len() ==> n == buf@.len())
                    && final(self).written() == old(self).written() + buf@.subrange(0, n as int)
                    && final(self).room() + n >= old(self).room(),
                Err(_) => old(self).room() < buf@.len() && final(self).written() == old(self).written(),
            };
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        ensures
            wrote(old(self).written(), final(self).written(), buf@, r is Ok),
            r is Err ==> old(self).room() < buf@.len(),
            r is Ok ==> final(self).room() + buf@.len() >= old(self).room();
    fn flush(&mut self) -> (r: io::Result<()>)
        ensures final(self).written() == old(self).written();
}

#[verifier::external_trait_specification]
pub trait ExRead { type ExternalTraitSpecificationFor: std::io::Read; }

// ---------------------------------------------------------------- std::io::BufRead
/// what a reader reported instead of data
pub enum Fault { Eof, Err(io::Error) }
/// `seen()`: all bytes consumed so far; `ahead()`: bytes already there but not consumed;
/// `faults()`: every end of input and every error reported so far; `rest()`: how many more bytes can be consumed.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(BufReadSpec via BufReadSpecImpl)]
pub trait ExBufRead: std::io::Read {
    type ExternalTraitSpecificationFor: std::io::BufRead;
    spec fn seen(&self) -> Seq<u8>;
    spec fn ahead(&self) -> Seq<u8>;
    spec fn faults(&self) -> Seq<Fault>;
    spec fn rest(&self) -> nat;
    fn fill_buf(&mut self) -> (r: io::Result<&[u8]>)
        ensures
            final(self).seen() == old(self).seen(), final(self).rest() == old(self).rest(),
            old(self).ahead().len() > 0 ==> final(self).ahead() == old(self).ahead(),
            match r {
                Ok(b) => b@ == final(self).ahead() && b@.len() <= final(self).rest() && final(self).faults() == if b@.len() == 0 { old(self).faults().push(Fault::Eof) } else { old(self).faults() },
                Err(e) => final(self).ahead() == old(self).ahead() && final(self).faults() == old(self).faults().push(Fault::Err(e)),
            };
    fn consume(&mut self, n: usize)
        requires n <= old(self).ahead().len(),
        ensures final(self).seen() == old(self).seen() + old(self).ahead().take(n as int), final(self).ahead() == old(self).ahead().skip(n as int),
            final(self).faults() == old(self).faults(), final(self).rest() == old(self).rest() - n;
}
}
}
pub use wr::{WriteSpec, BufReadSpec, Fault};
pub mod cow {
use vstd::prelude::*; use std::borrow::Cow; use std::ops::Deref;
verus! {
pub open spec fn cow_bytes(c: Cow<'_, [u8]>) -> Seq<u8> { match c { Cow::Borrowed(b) => b@, Cow::Owned(v) => v@ } }
pub uninterp spec fn deref_value<T: Deref>(c: &T) -> &T::Target;
// `Deref::deref` is a function of its argument; for `Cow<[u8]>` it gives the borrowed or owned bytes
pub broadcast axiom fn axiom_deref<T: Deref>(c: &T, r: &T::Target) requires #[trigger] call_ensures(<T as Deref>::deref, (c,), r) ensures r == deref_value(c);
pub uninterp spec fn to_owned_value<B: ?Sized + std::borrow::ToOwned>(c: Cow<'_, B>) -> <B as std::borrow::ToOwned>::Owned;
pub assume_specification<'a, B: ?Sized + std::borrow::ToOwned>[ Cow::<'a, B>::into_owned ](c: Cow<'a, B>) -> (r: <B as std::borrow::ToOwned>::Owned) ensures r == to_owned_value(c);
pub broadcast axiom fn axiom_into_owned(c: Cow<'_, [u8]>) ensures (#[trigger] to_owned_value(c))@ == cow_bytes(c);
pub broadcast axiom fn axiom_deref_cow(c: Cow<'_, [u8]>) ensures #[trigger] deref_value(&c)@ == cow_bytes(c);
}
}
pub use cow::cow_bytes;
pub mod qm {
use vstd::prelude::*; use vstd::std_specs::convert::FromSpec;
verus! {
// the `?` operator converts errors with `From::from`
pub broadcast axiom fn axiom_question_mark<S, T: From<S>>(a: S, r: T)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<T, S>(a, r), <T as FromSpec<S>>::obeys_from_spec(),
    ensures r == <T as FromSpec<S>>::from_spec(a);
}
}

verus! {
global size_of usize == 8;

// ---------------------------------------------------------------- external types
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);

#[verifier::external_type_specification]
pub struct ExErrorKind(io::ErrorKind);

pub uninterp spec fn err_of_kind(k: io::ErrorKind) -> io::Error;

pub assume_specification[ <io::Error as From<io::ErrorKind>>::from ](k: io::ErrorKind) -> (r: io::Error)
    ensures r == err_of_kind(k);

// ---------------------------------------------------------------- std: integers
pub open spec fn npot(n: nat) -> nat {
    if n <= 1 { 1 } else if n <= 2 { 2 } else if n <= 4 { 4 } else if n <= 8 { 8 } else if n <= 16 { 16 }
    else if n <= 32 { 32 } else if n <= 64 { 64 } else if n <= 128 { 128 } else { 256 }
}
pub open spec fn tz(n: nat) -> u32 {
    if n == 1 { 0 } else if n == 2 { 1 } else if n == 4 { 2 } else if n == 8 { 3 } else if n == 16 { 4 }
    else if n == 32 { 5 } else if n == 64 { 6 } else if n == 128 { 7 } else { 8 }
}
pub open spec fn small_pow2(n: nat) -> bool { n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32 || n == 64 || n == 128 || n == 256 }
pub assume_specification[ usize::next_power_of_two ](n: usize) -> (r: usize)
    requires n <= 0x8000_0000,
    ensures n <= 256 ==> r == npot(n as nat);
pub assume_specification[ u32::next_power_of_two ](n: u32) -> (r: u32)
    requires n <= 0x8000_0000,
    ensures n <= 256 ==> r == npot(n as nat);
pub assume_specification[ usize::trailing_zeros ](n: usize) -> (r: u32)
    ensures small_pow2(n as nat) ==> r == tz(n as nat), r <= 64;
pub proof fn lemma_tz32(n: u32)
    requires small_pow2(n as nat),
    ensures vstd::std_specs::bits::u32_trailing_zeros(n) == tz(n as nat)
{
    vstd::std_specs::bits::axiom_u32_trailing_zeros(n);
    let t = vstd::std_specs::bits::u32_trailing_zeros(n) as u32;
    assert((n >> t) & 1 == 1 && t < 32);
    if n == 1 { assert(t == 0) by (bit_vector) requires (n >> t) & 1 == 1, t < 32, n == 1; }
    if n == 2 { assert(t == 1) by (bit_vector) requires (n >> t) & 1 == 1, t < 32, n == 2; }
    if n == 4 { assert(t == 2) by (bit_vector) requires (n >> t) & 1 == 1, t < 32, n == 4; }
    if n == 8 { assert(t == 3) by (bit_vector) requires (n >> t) & 1 == 1, t < 32, n == 8; }
    if n == 16 { assert(t == 4) by (bit_vector) requires (n >> t) & 1 == 1, t < 32, n == 16; }
    if n == 32 { assert(t == 5) by (bit_vector) requires (n >> t) & 1 == 1, t < 32, n == 32; }
    if n == 64 { assert(t == 6) by (bit_vector) requires (n >> t) & 1 == 1, t < 32, n == 64; }
    if n == 128 { assert(t == 7) by (bit_vector) requires (n >> t) & 1 == 1, t < 32, n == 128; }
    if n == 256 { assert(t == 8) by (bit_vector) requires (n >> t) & 1 == 1, t < 32, n == 256; }
}

pub open spec fn two_to(i: int) -> nat { if i == 0 { 1 } else if i == 1 { 2 } else if i == 2 { 4 } else if i == 3 { 8 } else if i == 4 { 16 } else if i == 5 { 32 } else if i == 6 { 64 } else if i == 7 { 128 } else { 256 } }
/// color table sizes, however the shift is written
pub proof fn lemma_shifts()
    ensures
        forall|s: u8| s <= 8 ==> #[trigger] (1usize << s) == 1 * two_to(s as int),
        forall|s: usize| s <= 8 ==> #[trigger] (1usize << s) == 1 * two_to(s as int),
        forall|s: u32| s <= 8 ==> #[trigger] (1usize << s) == 1 * two_to(s as int),
        forall|s: i32| 0 <= s && s <= 8 ==> #[trigger] (1usize << s) == 1 * two_to(s as int),
        forall|s: u8| s <= 7 ==> #[trigger] (2usize << s) == 2 * two_to(s as int),
        forall|s: usize| s <= 7 ==> #[trigger] (2usize << s) == 2 * two_to(s as int),
        forall|s: u32| s <= 7 ==> #[trigger] (2usize << s) == 2 * two_to(s as int),
        forall|s: i32| 0 <= s && s <= 7 ==> #[trigger] (2usize << s) == 2 * two_to(s as int),
        forall|s: u8| s <= 8 ==> #[trigger] (3usize << s) == 3 * two_to(s as int),
        forall|s: usize| s <= 8 ==> #[trigger] (3usize << s) == 3 * two_to(s as int),
        forall|s: u32| s <= 8 ==> #[trigger] (3usize << s) == 3 * two_to(s as int),
        forall|s: i32| 0 <= s && s <= 8 ==> #[trigger] (3usize << s) == 3 * two_to(s as int),
{
    assert(1usize << 0u8 == 1 && 1usize << 1u8 == 2 && 1usize << 2u8 == 4 && 1usize << 3u8 == 8 && 1usize << 4u8 == 16 && 1usize << 5u8 == 32 && 1usize << 6u8 == 64 && 1usize << 7u8 == 128 && 1usize << 8u8 == 256) by (bit_vector);
    assert forall|s: u8| s <= 8 implies #[trigger] (1usize << s) == 1 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else if s == 7 {} else {} }
    assert(1usize << 0usize == 1 && 1usize << 1usize == 2 && 1usize << 2usize == 4 && 1usize << 3usize == 8 && 1usize << 4usize == 16 && 1usize << 5usize == 32 && 1usize << 6usize == 64 && 1usize << 7usize == 128 && 1usize << 8usize == 256) by (bit_vector);
    assert forall|s: usize| s <= 8 implies #[trigger] (1usize << s) == 1 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else if s == 7 {} else {} }
    assert(1usize << 0u32 == 1 && 1usize << 1u32 == 2 && 1usize << 2u32 == 4 && 1usize << 3u32 == 8 && 1usize << 4u32 == 16 && 1usize << 5u32 == 32 && 1usize << 6u32 == 64 && 1usize << 7u32 == 128 && 1usize << 8u32 == 256) by (bit_vector);
    assert forall|s: u32| s <= 8 implies #[trigger] (1usize << s) == 1 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else if s == 7 {} else {} }
    assert(1usize << 0i32 == 1 && 1usize << 1i32 == 2 && 1usize << 2i32 == 4 && 1usize << 3i32 == 8 && 1usize << 4i32 == 16 && 1usize << 5i32 == 32 && 1usize << 6i32 == 64 && 1usize << 7i32 == 128 && 1usize << 8i32 == 256) by (bit_vector);
    assert forall|s: i32| 0 <= s && s <= 8 implies #[trigger] (1usize << s) == 1 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else if s == 7 {} else {} }
    assert(2usize << 0u8 == 2 && 2usize << 1u8 == 4 && 2usize << 2u8 == 8 && 2usize << 3u8 == 16 && 2usize << 4u8 == 32 && 2usize << 5u8 == 64 && 2usize << 6u8 == 128 && 2usize << 7u8 == 256) by (bit_vector);
    assert forall|s: u8| s <= 7 implies #[trigger] (2usize << s) == 2 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else {} }
    assert(2usize << 0usize == 2 && 2usize << 1usize == 4 && 2usize << 2usize == 8 && 2usize << 3usize == 16 && 2usize << 4usize == 32 && 2usize << 5usize == 64 && 2usize << 6usize == 128 && 2usize << 7usize == 256) by (bit_vector);
    assert forall|s: usize| s <= 7 implies #[trigger] (2usize << s) == 2 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else {} }
    assert(2usize << 0u32 == 2 && 2usize << 1u32 == 4 && 2usize << 2u32 == 8 && 2usize << 3u32 == 16 && 2usize << 4u32 == 32 && 2usize << 5u32 == 64 && 2usize << 6u32 == 128 && 2usize << 7u32 == 256) by (bit_vector);
    assert forall|s: u32| s <= 7 implies #[trigger] (2usize << s) == 2 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else {} }
    assert(2usize << 0i32 == 2 && 2usize << 1i32 == 4 && 2usize << 2i32 == 8 && 2usize << 3i32 == 16 && 2usize << 4i32 == 32 && 2usize << 5i32 == 64 && 2usize << 6i32 == 128 && 2usize << 7i32 == 256) by (bit_vector);
    assert forall|s: i32| 0 <= s && s <= 7 implies #[trigger] (2usize << s) == 2 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else {} }
    assert(3usize << 0u8 == 3 && 3usize << 1u8 == 6 && 3usize << 2u8 == 12 && 3usize << 3u8 == 24 && 3usize << 4u8 == 48 && 3usize << 5u8 == 96 && 3usize << 6u8 == 192 && 3usize << 7u8 == 384 && 3usize << 8u8 == 768) by (bit_vector);
    assert forall|s: u8| s <= 8 implies #[trigger] (3usize << s) == 3 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else if s == 7 {} else {} }
    assert(3usize << 0usize == 3 && 3usize << 1usize == 6 && 3usize << 2usize == 12 && 3usize << 3usize == 24 && 3usize << 4usize == 48 && 3usize << 5usize == 96 && 3usize << 6usize == 192 && 3usize << 7usize == 384 && 3usize << 8usize == 768) by (bit_vector);
    assert forall|s: usize| s <= 8 implies #[trigger] (3usize << s) == 3 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else if s == 7 {} else {} }
    assert(3usize << 0u32 == 3 && 3usize << 1u32 == 6 && 3usize << 2u32 == 12 && 3usize << 3u32 == 24 && 3usize << 4u32 == 48 && 3usize << 5u32 == 96 && 3usize << 6u32 == 192 && 3usize << 7u32 == 384 && 3usize << 8u32 == 768) by (bit_vector);
    assert forall|s: u32| s <= 8 implies #[trigger] (3usize << s) == 3 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else if s == 7 {} else {} }
    assert(3usize << 0i32 == 3 && 3usize << 1i32 == 6 && 3usize << 2i32 == 12 && 3usize << 3i32 == 24 && 3usize << 4i32 == 48 && 3usize << 5i32 == 96 && 3usize << 6i32 == 192 && 3usize << 7i32 == 384 && 3usize << 8i32 == 768) by (bit_vector);
    assert forall|s: i32| 0 <= s && s <= 8 implies #[trigger] (3usize << s) == 3 * two_to(s as int) by { if s == 0 {} else if s == 1 {} else if s == 2 {} else if s == 3 {} else if s == 4 {} else if s == 5 {} else if s == 6 {} else if s == 7 {} else {} }
}
pub proof fn lemma_shl2()
    ensures forall|t: u8| t <= 7 ==> #[trigger] (2usize << t) == table_entries(t)
{
    assert(2usize << 0u8 == 2 && 2usize << 1u8 == 4 && 2usize << 2u8 == 8 && 2usize << 3u8 == 16
        && 2usize << 4u8 == 32 && 2usize << 5u8 == 64 && 2usize << 6u8 == 128 && 2usize << 7u8 == 256) by (bit_vector);
    assert forall|t: u8| t <= 7 implies #[trigger] (2usize << t) == table_entries(t) by {
        if t == 0 {} else if t == 1 {} else if t == 2 {} else if t == 3 {} else if t == 4 {} else if t == 5 {} else if t == 6 {} else {}
    }
}

pub assume_specification[ <u8 as From<bool>>::from ](b: bool) -> (r: u8) ensures r == (if b {1u8} else {0u8});
pub assume_specification[ <usize as From<bool>>::from ](b: bool) -> (r: usize) ensures r == (if b {1usize} else {0usize});

// machine facts: slices and arrays never exceed isize::MAX bytes
pub axiom fn axiom_slice_len(s: &[u8]) ensures s@.len() <= isize::MAX;
pub axiom fn axiom_arr_len<const N: usize>() ensures N <= isize::MAX;

/// The writer went from `o` to `n` while being given `data`: all of it if `ok`, else a prefix of it.
pub open spec fn wrote(o: Seq<u8>, n: Seq<u8>, data: Seq<u8>, ok: bool) -> bool {
    if ok { n =~= o + data } else { o.len() <= n.len() <= o.len() + data.len() && n =~= (o + data).take(n.len() as int) }
}

/// same relation for the composition of several writes (a separate predicate only to keep the solver's search linear)
pub open spec fn wseq(o: Seq<u8>, n: Seq<u8>, data: Seq<u8>, ok: bool) -> bool {
    if ok { n =~= o + data } else { o.len() <= n.len() <= o.len() + data.len() && n =~= (o + data).take(n.len() as int) }
}
pub broadcast proof fn lemma_wrote_base(o: Seq<u8>, n: Seq<u8>, a: Seq<u8>, ok: bool)
    requires #[trigger] wrote(o, n, a, ok),
    ensures wseq(o, n, a, ok),
{
}
pub broadcast proof fn lemma_wrote_trans(o: Seq<u8>, m: Seq<u8>, n: Seq<u8>, a: Seq<u8>, b: Seq<u8>, ok: bool)
    requires #[trigger] wseq(o, m, a, true), #[trigger] wrote(m, n, b, ok),
    ensures wseq(o, n, a + b, ok),
{
    assert((o + a) + b =~= o + (a + b));
}
pub broadcast proof fn lemma_wrote_short(o: Seq<u8>, m: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires #[trigger] wseq(o, m, a, false),
    ensures wseq(o, m, #[trigger] (a + b), false),
{
    assert((o + (a + b)).take(m.len() as int) =~= (o + a).take(m.len() as int));
}

// ---------------------------------------------------------------- std: chunk iterators
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExChunksExact<'a, T: 'a>(std::slice::ChunksExact<'a, T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExChunks<'a, T: 'a>(std::slice::Chunks<'a, T>);
/// items not yet yielded (including the remainder), and the chunk size
pub uninterp spec fn ce_rest<T>(it: std::slice::ChunksExact<'_, T>) -> Seq<T>;
pub uninterp spec fn ce_size<T>(it: std::slice::ChunksExact<'_, T>) -> nat;
pub uninterp spec fn ch_rest<T>(it: std::slice::Chunks<'_, T>) -> Seq<T>;
pub uninterp spec fn ch_size<T>(it: std::slice::Chunks<'_, T>) -> nat;
pub assume_specification<'a, T>[ <[T]>::chunks_exact ](s: &'a [T], n: usize) -> (r: std::slice::ChunksExact<'a, T>)
    requires n > 0,
    ensures ce_rest(r) == s@, ce_size(r) == n;
pub assume_specification<'a, T>[ <[T]>::chunks ](s: &'a [T], n: usize) -> (r: std::slice::Chunks<'a, T>)
    requires n > 0,
    ensures ch_rest(r) == s@, ch_size(r) == n;
pub assume_specification<'a, T>[ <std::slice::ChunksExact<'a, T> as Iterator>::next ](it: &mut std::slice::ChunksExact<'a, T>) -> (r: Option<&'a [T]>)
    ensures
        ce_size(*final(it)) == ce_size(*old(it)),
        match r {
            Some(c) => ce_rest(*old(it)).len() >= ce_size(*old(it)) && c@ == ce_rest(*old(it)).take(ce_size(*old(it)) as int)
                && ce_rest(*final(it)) == ce_rest(*old(it)).skip(ce_size(*old(it)) as int),
            None => ce_rest(*old(it)).len() < ce_size(*old(it)) && ce_rest(*final(it)) == ce_rest(*old(it)),
        };
pub assume_specification<'a, T>[ std::slice::ChunksExact::<'a, T>::remainder ](it: &std::slice::ChunksExact<'a, T>) -> (r: &'a [T])
    ensures r@ == ce_rest(*it).skip(ce_rest(*it).len() - ce_rest(*it).len() % ce_size(*it));
pub assume_specification<'a, T>[ <std::slice::Chunks<'a, T> as Iterator>::next ](it: &mut std::slice::Chunks<'a, T>) -> (r: Option<&'a [T]>)
    ensures
        ch_size(*final(it)) == ch_size(*old(it)),
        match r {
            Some(c) => ch_rest(*old(it)).len() > 0 && ({
                let n = if ch_rest(*old(it)).len() < ch_size(*old(it)) { ch_rest(*old(it)).len() as int } else { ch_size(*old(it)) as int };
                c@ == ch_rest(*old(it)).take(n) && ch_rest(*final(it)) == ch_rest(*old(it)).skip(n) }),
            None => ch_rest(*old(it)).len() == 0 && ch_rest(*final(it)) == ch_rest(*old(it)),
        };

/// Finishing a write that is already `cur` bytes into `o + total`.
pub broadcast proof fn lemma_wrote_tail(o: Seq<u8>, cur: Seq<u8>, n: Seq<u8>, x: Seq<u8>, total: Seq<u8>, ok: bool)
    requires #[trigger] wrote(cur, n, x, ok), cur + x =~= o + total, cur.len() >= o.len(),
    ensures #[trigger] wrote(o, n, total, ok),
{
}

// ---------------------------------------------------------------- GIF byte layout (encoder side)
pub open spec fn le16(n: u16) -> Seq<u8> { seq![(n % 256) as u8, (n / 256) as u8] }

pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }

/// Size field of a colour table with `n` colours: the smallest `s` with 2^(s+1) >= n.
pub open spec fn table_flag(n: nat) -> u8 {
    if n <= 2 { 0 } else if n <= 4 { 1 } else if n <= 8 { 2 } else if n <= 16 { 3 }
    else if n <= 32 { 4 } else if n <= 64 { 5 } else if n <= 128 { 6 } else { 7 }
}
pub open spec fn table_entries(flag: u8) -> nat {
    if flag == 0 { 2 } else if flag == 1 { 4 } else if flag == 2 { 8 } else if flag == 3 { 16 }
    else if flag == 4 { 32 } else if flag == 5 { 64 } else if flag == 6 { 128 } else { 256 }
}
pub open spec fn colors(p: Seq<u8>) -> nat { p.len() / 3 }
/// The colour table written for palette `p`: whole colours, then zero colours up to the table size.
pub open spec fn table_bytes(p: Seq<u8>) -> Seq<u8> {
    p.take(3 * colors(p) as int) + zeros((3 * (table_entries(table_flag(colors(p))) - colors(p))) as nat)
}
pub open spec fn screen_bytes(w: u16, h: u16, flags: u8) -> Seq<u8> {
    seq![0x47u8, 0x49, 0x46, 0x38, 0x39, 0x61] + le16(w) + le16(h) + seq![flags, 0u8, 0u8]
}
pub open spec fn header_bytes(w: u16, h: u16, p: Seq<u8>) -> Seq<u8> {
    screen_bytes(w, h, (0x80 + 17 * table_flag(colors(p))) as u8) + table_bytes(p)
}
pub open spec fn control_bytes(flags: u8, delay: u16, trns: u8) -> Seq<u8> {
    seq![0x21u8, 0xF9, 4, flags] + le16(delay) + seq![trns, 0u8]
}
pub open spec fn repeat_bytes(n: u16) -> Seq<u8> {
    seq![0x21u8, 0xFF, 11, 0x4E, 0x45, 0x54, 0x53, 0x43, 0x41, 0x50, 0x45, 0x32, 0x2E, 0x30, 3, 1] + le16(n) + seq![0u8]
}
pub open spec fn sub_blocks(d: Seq<u8>) -> Seq<u8>
    decreases d.len()
{
    if d.len() == 0 { seq![0u8] }
    else if d.len() < 255 { seq![d.len() as u8] + d + seq![0u8] }
    else { seq![255u8] + d.take(255) + sub_blocks(d.skip(255)) }
}
pub broadcast proof fn lemma_sub_blocks_len(d: Seq<u8>)
    ensures (#[trigger] sub_blocks(d)).len() >= d.len() + 1,
    decreases d.len()
{
    if d.len() >= 255 { lemma_sub_blocks_len(d.skip(255)); }
}
/// `d` in sub-blocks, without the terminator
pub open spec fn chunked(d: Seq<u8>) -> Seq<u8>
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() }
    else if d.len() <= 255 { seq![d.len() as u8] + d }
    else { seq![255u8] + d.take(255) + chunked(d.skip(255)) }
}
pub open spec fn image_block_bytes(d: Seq<u8>) -> Seq<u8> {
    if d.len() == 0 { seq![2u8, 0u8] } else { seq![d[0]] + sub_blocks(d.skip(1)) }
}

pub uninterp spec fn err_with_message(k: io::ErrorKind) -> io::Error;
/// `io::Error::new(kind, message)`; the message is dropped by the extraction.
#[verifier::external_body]
pub fn io_error_new(k: io::ErrorKind) -> (r: io::Error)
    ensures r == err_with_message(k)
{
    io::Error::new(k, "")
}

/// `r.expect("OOM")` on the result of a reservation: aborts the operation (panics) when memory runs out.
#[verifier::external_body]
pub fn reserved_or_abort(r: Result<(), std::collections::TryReserveError>)
    ensures r is Ok
{
    r.expect("OOM")
}

// ---------------------------------------------------------------- weezl, encoder side
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExLzwEncoder(weezl::encode::Encoder);
#[verifier::external_type_specification]
pub struct ExBitOrder(weezl::BitOrder);
/// `Some(n)`: freshly made LSB encoder for code size `n`
pub uninterp spec fn lzw_encoder_fresh(e: weezl::encode::Encoder) -> Option<u8>;
/// The LZW stream (LSB first, GIF code widths) weezl makes of `data` with minimum code size `size`.
pub uninterp spec fn lzw_enc(size: u8, data: Seq<u8>) -> Seq<u8>;
pub assume_specification[ weezl::encode::Encoder::new ](o: weezl::BitOrder, size: u8) -> (r: weezl::encode::Encoder)
    requires 2 <= size <= 12,
    ensures o is Lsb ==> lzw_encoder_fresh(r) == Some(size);
#[verifier::external_body]
pub fn weezl_encode_all(enc: &mut weezl::encode::Encoder, vec: &mut Vec<u8>, data: &[u8]) -> (r: usize)
    requires
        lzw_encoder_fresh(*old(enc)) is Some,
        forall|i: int| 0 <= i < data@.len() ==> small_byte(#[trigger] data@[i], lzw_encoder_fresh(*old(enc))->0),
    ensures
        final(vec)@ == old(vec)@ + lzw_enc(lzw_encoder_fresh(*old(enc))->0, data@),
        r == lzw_enc(lzw_encoder_fresh(*old(enc))->0, data@).len(),
        final(vec)@.len() <= isize::MAX,
{
    enc.into_vec(vec).encode_all(data).consumed_out
}
/// `b < 2^size`
pub open spec fn small_byte(b: u8, size: u8) -> bool {
    size >= 8 || (b as int) < (if size == 2 { 4int } else if size == 3 { 8 } else if size == 4 { 16 } else if size == 5 { 32 } else if size == 6 { 64 } else if size == 7 { 128 } else { 0 })
}
pub open spec fn all_small(d: Seq<u8>, size: u8) -> bool { forall|i: int| 0 <= i < d.len() ==> small_byte(#[trigger] d[i], size) }
/// GIF minimum code size for the given indices: the smallest size >= 2 in which all of them fit.
pub open spec fn min_code_size(d: Seq<u8>) -> u8 {
    if all_small(d, 2) { 2 } else if all_small(d, 3) { 3 } else if all_small(d, 4) { 4 } else if all_small(d, 5) { 5 }
    else if all_small(d, 6) { 6 } else if all_small(d, 7) { 7 } else { 8 }
}
pub open spec fn lzw_image_data(d: Seq<u8>) -> Seq<u8> { seq![min_code_size(d)] + lzw_enc(min_code_size(d), d) }
pub proof fn lemma_min_code_size(d: Seq<u8>, m: u8, size: u8)
    requires
        forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] <= m || m > 127,
        m == 0 || exists|i: int| 0 <= i < d.len() && #[trigger] d[i] == m,
        size == (if m <= 3 { 2 } else if m <= 7 { 3 } else if m <= 15 { 4 } else if m <= 31 { 5 } else if m <= 63 { 6 } else if m <= 127 { 7 } else { 8int }),
    ensures size == min_code_size(d), all_small(d, size),
{
    if m > 0 {
        let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == m;
        assert(forall|s: u8| 2 <= s < size ==> !#[trigger] small_byte(d[i], s));
        assert(forall|s: u8| 2 <= s < size ==> !#[trigger] all_small(d, s)) by {
            assert forall|s: u8| 2 <= s < size implies !#[trigger] all_small(d, s) by { assert(!small_byte(d[i], s)); }
        }
    }
    assert(all_small(d, size));
}

// ---------------------------------------------------------------- weezl, decoder side
pub axiom fn axiom_vec_len(v: Vec<u8>) ensures v@.len() <= vec_cap(v), vec_cap(v) <= isize::MAX;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExLzwDecoder(weezl::decode::Decoder);
#[verifier::external_type_specification]
pub struct ExLzwStatus(weezl::LzwStatus);
#[verifier::external_type_specification]
pub struct ExLzwError(weezl::LzwError);
#[verifier::external_type_specification]
pub struct ExBufferResult(weezl::BufferResult);
/// State of a weezl decoder since it was made or reset: bytes fed and bytes produced, whether the end code was met,
/// whether the last call produced nothing although there was room, and a bound on the calls that only step over clear codes.
pub struct Lz { pub size: u8, pub fed: Seq<u8>, pub made: Seq<u8>, pub ended: bool, pub quiet: bool, pub pot: nat }
pub uninterp spec fn lz(d: weezl::decode::Decoder) -> Lz;
/// All bytes the LZW stream `fed` (LSB first, minimum code size `size`) stands for, up to its end code if it has one.
pub uninterp spec fn lzw_out(size: u8, fed: Seq<u8>) -> Seq<u8>;
/// The stream contains an end code.
pub uninterp spec fn lzw_done(size: u8, fed: Seq<u8>) -> bool;
/// The stream contains a code that stands for nothing.
pub uninterp spec fn lzw_bad(size: u8, fed: Seq<u8>) -> bool;
pub axiom fn axiom_lzw_prefix(size: u8, a: Seq<u8>, b: Seq<u8>)
    ensures lzw_out(size, a).is_prefix_of(lzw_out(size, a + b)),
        lzw_done(size, a) ==> lzw_out(size, a + b) == lzw_out(size, a) && lzw_done(size, a + b);
/// what follows does not make a stream good again
pub axiom fn axiom_lzw_bad(size: u8, a: Seq<u8>, b: Seq<u8>)
    ensures lzw_bad(size, a) ==> lzw_bad(size, a + b);
/// weezl's decoder undoes what weezl's encoder does
pub axiom fn axiom_lzw_inverse(size: u8, d: Seq<u8>)
    requires 2 <= size <= 8, all_small(d, size),
    ensures lzw_out(size, lzw_enc(size, d)) == d, lzw_done(size, lzw_enc(size, d)), !lzw_bad(size, lzw_enc(size, d));
pub open spec fn lz_fresh(l: Lz, size: u8) -> bool { l.size == size && l.fed =~= Seq::<u8>::empty() && l.made =~= Seq::<u8>::empty() && !l.ended && !l.quiet }
/// what was produced is a beginning of what the fed bytes stand for, and all of it once the end code was met
pub open spec fn lz_ok(l: Lz) -> bool { l.made.is_prefix_of(lzw_out(l.size, l.fed)) && (l.ended ==> l.made == lzw_out(l.size, l.fed) && lzw_done(l.size, l.fed)) }
/// a code is at least 2 bits long and stands for at most 4096 bytes
pub open spec fn lz_bound(l: Lz) -> bool { l.made.len() <= 16384 * l.fed.len() }
pub assume_specification[ weezl::decode::Decoder::new ](o: weezl::BitOrder, size: u8) -> (r: weezl::decode::Decoder)
    requires size <= 12,
    ensures o is Lsb ==> lz_fresh(lz(r), size) && lz_ok(lz(r)) && lz_bound(lz(r));
pub assume_specification[ weezl::decode::Decoder::reset ](d: &mut weezl::decode::Decoder)
    ensures lz_fresh(lz(*final(d)), lz(*old(d)).size), lz_ok(lz(*final(d))), lz_bound(lz(*final(d)));
pub assume_specification[ weezl::decode::Decoder::has_ended ](d: &weezl::decode::Decoder) -> (r: bool)
    ensures r == lz(*d).ended;
/// one call of the weezl decoder
pub open spec fn lz_call(o: Lz, n: Lz, inp: Seq<u8>, out0: Seq<u8>, out: Seq<u8>, r: weezl::BufferResult) -> bool {
    let (ci, co) = (r.consumed_in as int, r.consumed_out as int);
    &&& ci <= inp.len() && co <= out.len() && out.len() == out0.len()
    &&& n.size == o.size && n.fed == o.fed + inp.take(ci) && n.made == o.made + out.take(co)
    &&& lz_bound(o) ==> lz_bound(n)
    &&& o.ended ==> n.ended && ci == 0 && co == 0 && r.status is Ok
    &&& r.status is Err ==> lzw_bad(o.size, o.fed + inp)
    &&& r.status matches Ok(s) ==> {
        &&& lz_ok(o) ==> lz_ok(n)
        &&& s is Done <==> n.ended
        &&& n.quiet <==> s is NoProgress && co == 0 && out.len() > 0
        &&& o.quiet && n.quiet ==> ci == inp.len() && (lz_ok(o) ==> n.made == lzw_out(n.size, n.fed) && !lzw_done(n.size, n.fed))
        &&& ci == 0 && co == 0 && out.len() > 0 ==> n.pot <= o.pot && (s is Ok ==> n.pot < o.pot)
    }
}
pub assume_specification[ weezl::decode::Decoder::decode_bytes ](d: &mut weezl::decode::Decoder, inp: &[u8], out: &mut [u8]) -> (r: weezl::BufferResult)
    ensures lz_call(lz(*old(d)), lz(*final(d)), inp@, old(out)@, final(out)@, r);

// ---------------------------------------------------------------- Vec with capacity
pub uninterp spec fn vec_cap(v: Vec<u8>) -> nat;
/// The methods of `Vec<u8>` of the same names without `vx_`.
pub trait VecX {
    fn vx_extend_from_slice(&mut self, s: &[u8]);
    fn vx_try_reserve(&mut self, n: usize) -> (r: Result<(), std::collections::TryReserveError>);
    fn vx_try_reserve_exact(&mut self, n: usize) -> (r: Result<(), std::collections::TryReserveError>);
    /// `try_reserve` where no more than `l` may be reserved
    fn vx_try_reserve_within(&mut self, l: &crate::reader::MemoryLimit, n: usize) -> (r: Result<(), std::collections::TryReserveError>) requires crate::reader::within(*l, n as nat);
    fn vx_capacity(&self) -> usize;
}
impl VecX for Vec<u8> {
    #[verifier::external_body]
    fn vx_extend_from_slice(&mut self, s: &[u8])
        ensures final(self)@ =~= old(self)@ + s@, old(self)@.len() + s@.len() <= vec_cap(*old(self)) ==> vec_cap(*final(self)) == vec_cap(*old(self)),
            final(self)@.len() <= isize::MAX,
    { self.extend_from_slice(s) }
    #[verifier::external_body]
    fn vx_try_reserve(&mut self, n: usize) -> (r: Result<(), std::collections::TryReserveError>)
        ensures final(self)@ == old(self)@, r is Ok ==> vec_cap(*final(self)) >= old(self)@.len() + n, vec_cap(*final(self)) >= vec_cap(*old(self)),
    { self.try_reserve(n) }
    #[verifier::external_body]
    fn vx_try_reserve_within(&mut self, l: &crate::reader::MemoryLimit, n: usize) -> (r: Result<(), std::collections::TryReserveError>)
        ensures final(self)@ == old(self)@, r is Ok ==> vec_cap(*final(self)) >= old(self)@.len() + n, vec_cap(*final(self)) >= vec_cap(*old(self)),
    { self.try_reserve(n) }
    #[verifier::external_body]
    fn vx_try_reserve_exact(&mut self, n: usize) -> (r: Result<(), std::collections::TryReserveError>)
        ensures final(self)@ == old(self)@, r is Ok ==> vec_cap(*final(self)) >= old(self)@.len() + n, vec_cap(*final(self)) >= vec_cap(*old(self)),
    { self.try_reserve_exact(n) }
    #[verifier::external_body]
    fn vx_capacity(&self) -> (r: usize)
        ensures r == vec_cap(*self), r >= self@.len(),
    { self.capacity() }
}

// ---------------------------------------------------------------- small std functions
/// `Vec::from(Box<[T]>)` keeps the elements
pub axiom fn axiom_vec_from_box_obeys() ensures <Vec<u8> as vstd::std_specs::convert::FromSpec<Box<[u8]>>>::obeys_from_spec();
pub broadcast axiom fn axiom_vec_from_box(b: Box<[u8]>)
    ensures (#[trigger] <Vec<u8> as vstd::std_specs::convert::FromSpec<Box<[u8]>>>::from_spec(b))@ == b@;
pub assume_specification<T: std::cmp::Ord + std::marker::Destruct>[ std::cmp::min ](a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> (r == if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == std::cmp::Ordering::Less { b } else { a });
pub assume_specification<T: std::marker::Destruct>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>)
    ensures r == if b { Some(t) } else { None };
pub assume_specification<T: std::default::Default>[ std::mem::take ](x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(<T as std::default::Default>::default, (), *final(x));
pub assume_specification<T>[ std::mem::replace ](x: &mut T, v: T) -> (r: T)
    ensures r == *old(x), *final(x) == v;
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(std::io::BufReader<R>);
pub assume_specification<R: std::io::Read>[ std::io::BufReader::<R>::new ](r: R) -> (b: std::io::BufReader<R>)
    ensures BufReadSpec::seen(&b).len() == 0, BufReadSpec::ahead(&b).len() == 0, BufReadSpec::faults(&b).len() == 0;
pub assume_specification<T, F: std::ops::FnOnce() -> T + std::marker::Destruct>[ Option::<T>::get_or_insert_with ](o: &mut Option<T>, f: F) -> (r: &mut T)
    requires *old(o) is None ==> call_requires(f, ()),
    ensures *old(o) is Some ==> *r == (*old(o))->0, *old(o) is None ==> call_ensures(f, (), *r), *final(o) == Some(*final(r));
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::into_boxed_slice ](v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::shrink_to ](v: &mut Vec<T, A>, n: usize)
    ensures final(v)@ == old(v)@;
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::shrink_to_fit ](v: &mut Vec<T, A>)
    ensures final(v)@ == old(v)@;
pub assume_specification[ <std::num::NonZeroU64 as TryFrom<u64>>::try_from ](n: u64) -> (r: Result<std::num::NonZeroU64, <std::num::NonZeroU64 as TryFrom<u64>>::Error>)
    ensures n > 0 ==> r is Ok && r->Ok_0@ == n;
pub fn slice_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ =~= b@)
{
    if a.len() != b.len() { return false; }
    let mut i = 0usize;
    while i < a.len()
        invariant i <= a@.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j],
        decreases a@.len() - i
    {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
pub open spec fn le16_at(s: Seq<u8>, i: int) -> u16 { (s[i] as int + 256 * s[i + 1]) as u16 }
/// `u16::from_le_bytes(x.try_into().unwrap())`
pub fn le_u16_from(x: &[u8]) -> (r: u16)
    requires x@.len() == 2,
    ensures r == le16_at(x@, 0),
{
    (x[0] as u16) + 256 * (x[1] as u16)
}
/// `u16::from_le_bytes(x)`
pub fn le_u16_of(x: [u8; 2]) -> (r: u16)
    ensures r == le16_at(x@, 0),
{
    (x[0] as u16) + 256 * (x[1] as u16)
}
pub assume_specification<T: std::cmp::Ord + std::marker::Destruct>[ std::cmp::max ](a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> (r == if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == std::cmp::Ordering::Less { a } else { b });
/// `a < b` on options: `None` is the smallest
pub open spec fn opt_less(a: Option<u16>, b: Option<u16>) -> bool { match (a, b) { (None, Some(_)) => true, (Some(x), Some(y)) => x < y, _ => false } }
pub fn opt_lt(a: Option<u16>, b: Option<u16>) -> (r: bool)
    ensures r == opt_less(a, b)
{
    match a { None => b.is_some(), Some(x) => match b { None => false, Some(y) => x < y } }
}
}

verus! {
/// Panics are allowed: a function whose contract says `requires may_panic() || c, ensures c` panics exactly when c is false.
pub uninterp spec fn may_panic() -> bool;
/// `assert!(c)`
#[verifier::external_body]
pub fn vx_must(c: bool) requires may_panic() || c, ensures c { assert!(c); }
}

pub mod it {
use vstd::prelude::*; use std::collections::{HashMap, HashSet}; use super::*;
verus! {
// ---- stand-ins with assumed contracts for standard library iterators and for color_quant
pub uninterp spec fn vx_bytes<T>(x: T) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_into<T: Into<Vec<u8>>>(x: T) -> (r: Vec<u8>) ensures r@ == vx_bytes(x), { x.into() }
#[verifier::external_body]
pub fn vx_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> (r: Option<U>)
    requires o matches Some(x) ==> call_requires(f, (x,)),
    ensures match o { Some(x) => r is Some && call_ensures(f, (x,), r->0), None => r is None },
{ match o { Some(x) => Some(f(x)), None => None } }

/// `s.chunks_exact(n)`
#[verifier::external_body]
pub struct VxChunks<'a> { it: std::slice::ChunksExact<'a, u8> }
pub uninterp spec fn ck_of(it: VxChunks<'_>) -> Seq<u8>;
pub uninterp spec fn ck_size(it: VxChunks<'_>) -> nat;
pub uninterp spec fn ck_at(it: VxChunks<'_>) -> int;
pub open spec fn chunk(s: Seq<u8>, n: int, i: int) -> Seq<u8> { s.subrange(i * n, i * n + n) }
#[verifier::external_body]
pub fn vx_chunks<'a>(s: &'a [u8], n: usize) -> (r: VxChunks<'a>) requires n > 0, ensures ck_of(r) == s@, ck_size(r) == n, ck_at(r) == 0 { VxChunks { it: s.chunks_exact(n) } }
impl<'a> VxChunks<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures ck_of(*final(self)) == ck_of(*old(self)), ck_size(*final(self)) == ck_size(*old(self)),
            match r {
                Some(c) => ck_at(*final(self)) == ck_at(*old(self)) + 1 && ck_at(*final(self)) * ck_size(*old(self)) <= ck_of(*old(self)).len() && c@ == chunk(ck_of(*old(self)), ck_size(*old(self)) as int, ck_at(*old(self))),
                None => ck_at(*final(self)) == ck_at(*old(self)) && ck_of(*old(self)).len() < (ck_at(*old(self)) + 1) * ck_size(*old(self)),
            }
    { self.it.next() }
    #[verifier::external_body]
    pub fn map<F: Fn(&[u8]) -> u8>(self, f: F) -> (r: VxOut)
        requires ck_at(self) == 0, forall|c: &[u8]| #[trigger] c@.len() == ck_size(self) ==> call_requires(f, (c,)),
        ensures vx_out(r).len() == ck_of(self).len() / ck_size(self), forall|i: int| 0 <= i < vx_out(r).len() ==> mapped(f, chunk(ck_of(self), ck_size(self) as int, i), #[trigger] vx_out(r)[i]),
    { VxOut { v: self.it.map(f).collect() } }
}
/// f may yield x for the chunk b
pub open spec fn mapped<F: Fn(&[u8]) -> u8>(f: F, b: Seq<u8>, x: u8) -> bool { exists|c: &[u8]| c@ == b && #[trigger] call_ensures(f, (c,), x) }
/// the bytes yielded by an iterator
#[verifier::external_body]
pub struct VxOut { v: Vec<u8> }
pub uninterp spec fn vx_out(o: VxOut) -> Seq<u8>;
impl VxOut {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<u8>) ensures r@ == vx_out(self) { self.v }
}

/// `s.chunks_exact_mut(n)`
#[verifier::external_body]
pub struct VxChunksMut<'a> { it: std::slice::ChunksExactMut<'a, u8> }
/// chunks not yet yielded, what they will be in the end, and the chunk size
pub uninterp spec fn cm_left(it: VxChunksMut<'_>) -> Seq<u8>;
#[verifier::prophetic]
pub uninterp spec fn cm_fin(it: VxChunksMut<'_>) -> Seq<u8>;
pub uninterp spec fn cm_size(it: VxChunksMut<'_>) -> nat;
#[verifier::external_body]
pub fn vx_chunks_mut<'a>(s: &'a mut [u8], n: usize) -> (r: VxChunksMut<'a>)
    requires n > 0,
    ensures cm_left(r) == old(s)@, cm_fin(r) == final(s)@, cm_size(r) == n,
{ VxChunksMut { it: s.chunks_exact_mut(n) } }
impl<'a> VxChunksMut<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut [u8]>)
        ensures
            cm_size(*final(self)) == cm_size(*old(self)),
            match r {
                Some(p) => {
                    &&& cm_left(*old(self)).len() >= cm_size(*old(self))
                    &&& p@ == cm_left(*old(self)).take(cm_size(*old(self)) as int)
                    &&& cm_left(*final(self)) == cm_left(*old(self)).skip(cm_size(*old(self)) as int)
                    &&& cm_fin(*old(self)) == final(p)@ + cm_fin(*final(self)) && final(p)@.len() == cm_size(*old(self))
                },
                None => cm_left(*old(self)).len() < cm_size(*old(self)) && cm_fin(*old(self)) == cm_left(*old(self)),
            }
    { self.it.next() }
}
pub type Rgba = (u8, u8, u8, u8);
/// the elements of a hash set, in some order
#[verifier::external_body]
pub struct VxAll { v: Vec<Rgba> }
pub uninterp spec fn all_of(v: VxAll) -> Seq<Rgba>;
#[verifier::external_body]
pub fn vx_all(s: HashSet<Rgba>) -> (r: VxAll) ensures all_of(r).no_duplicates(), all_of(r).to_set() == s@ { VxAll { v: s.into_iter().collect() } }
impl VxAll {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<Rgba>) ensures r@ == all_of(self) { self.v }
}
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<Rgba>) ensures final(v)@.len() == old(v)@.len(), final(v)@.to_set() == old(v)@.to_set(), old(v)@.no_duplicates() ==> final(v)@.no_duplicates() { v.sort_unstable() }
/// `v.iter()`
pub struct VxEach<'a> { pub v: &'a Vec<Rgba> }
pub fn vx_each<'a>(v: &'a Vec<Rgba>) -> (r: VxEach<'a>) ensures r.v@ == v@ { VxEach { v } }
pub open spec fn flat3(s: Seq<[u8; 3]>) -> Seq<u8> { Seq::new(s.len() * 3, |k: int| s[k / 3]@[k % 3]) }
pub proof fn lemma_flat3(o: Seq<[u8; 3]>, i: int) requires 0 <= i < o.len(), ensures flat3(o).subrange(3 * i, 3 * i + 3) =~= o[i]@ { let f = flat3(o); assert(f[3 * i + 0] == o[i]@[0]); assert(f[3 * i + 1] == o[i]@[1]); assert(f[3 * i + 2] == o[i]@[2]); }
impl<'a> VxEach<'a> {
    #[verifier::external_body]
    pub fn flat_map<F: Fn(&Rgba) -> [u8; 3]>(self, f: F) -> (r: VxOut)
        requires forall|c: &Rgba| call_requires(f, (c,)),
        ensures exists|o: Seq<[u8; 3]>| o.len() == self.v@.len() && vx_out(r) == #[trigger] flat3(o) && forall|i: int| 0 <= i < o.len() ==> call_ensures(f, (&self.v@[i],), #[trigger] o[i]),
    { VxOut { v: self.v.iter().flat_map(f).collect() } }
}
/// `v.into_iter().zip(0..=255)`: the elements numbered from 0
#[verifier::external_body]
pub struct VxNumbered { v: Vec<Rgba> }
pub uninterp spec fn numbered(v: VxNumbered) -> Seq<Rgba>;
#[verifier::external_body]
pub fn vx_number(v: Vec<Rgba>) -> (r: VxNumbered) ensures numbered(r) == if v@.len() > 256 { v@.take(256) } else { v@ } { VxNumbered { v } }
impl VxNumbered {
    #[verifier::external_body]
    pub fn collect(self) -> (r: HashMap<Rgba, u8>)
        ensures numbered(self).no_duplicates() ==> (forall|c: Rgba| #[trigger] r@.contains_key(c) <==> numbered(self).contains(c)) && forall|i: int| 0 <= i < numbered(self).len() ==> r@[#[trigger] numbered(self)[i]] == i as u8
    { self.v.into_iter().zip(0..=255).collect() }
}
pub broadcast axiom fn axiom_key_rgba() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Rgba>();
pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures r == match o { Some(x) => Some(*x), None => None };
/// color_quant::NeuQuant
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExNeuQuant(color_quant::NeuQuant);
pub uninterp spec fn nq_colours(n: color_quant::NeuQuant) -> nat;
pub assume_specification[ color_quant::NeuQuant::new ](samplefac: i32, colors: usize, pixels: &[u8]) -> (r: color_quant::NeuQuant)
    requires 1 <= samplefac <= 30, colors == 256, pixels@.len() % 4 == 0, ensures nq_colours(r) == colors;
pub assume_specification[ color_quant::NeuQuant::index_of ](n: &color_quant::NeuQuant, p: &[u8]) -> (r: usize)
    requires p@.len() == 4, ensures r < nq_colours(*n);
pub assume_specification[ color_quant::NeuQuant::color_map_rgb ](n: &color_quant::NeuQuant) -> (r: Vec<u8>)
    ensures r@.len() == 3 * nq_colours(*n);
}
}
