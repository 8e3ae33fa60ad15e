//// file common.rs
//// type DisposalMethod
//// type Block
//// type AnyExtension
//// type Extension
//// type Frame
//// fn DisposalMethod::from_u8 props=C06,C25
#[verus_spec(r => ensures r == dispose_of(n))]
//// fn Block::from_u8 props=C15
#[verus_spec(r => ensures r == block_of(n))]
//// fn AnyExtension::into_known props=C15
#[verus_spec(r => ensures r == known_ext(self.0))]
//// impl <AnyExtension as From<Extension>>
//// fn <AnyExtension as From<Extension>>::from props=C15
//// fn Extension::from_u8 props=C06,C15,C25
#[verus_spec(r => ensures r == known_ext(n))]
//// fn <Frame as Default>::default props=C06,C25
#[verus_spec(r => ensures r.delay == 0, r.dispose == DisposalMethod::Keep, r.transparent is None, !r.needs_user_input, r.top == 0, r.left == 0, r.width == 0, r.height == 0, !r.interlaced, r.palette is None, r.buffer is Borrowed, cow_bytes(r.buffer) =~= Seq::<u8>::empty())]
//// tail
use crate::vspec::*;
verus!{
// what `#[derive(PartialEq)]` says of enums without fields (used where code compares them with `==`)
impl vstd::std_specs::cmp::PartialEqSpecImpl for Extension {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Extension) -> bool { *self == *other }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Block {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Block) -> bool { *self == *other }
}
/// GIF89a extension labels
pub open spec fn ext_code(e: Extension) -> u8 { match e { Extension::Text => 0x01u8, Extension::Control => 0xF9u8, Extension::Comment => 0xFEu8, Extension::Application => 0xFFu8 } }
impl vstd::std_specs::convert::FromSpecImpl<Extension> for AnyExtension {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Extension) -> AnyExtension { AnyExtension(ext_code(v)) }
}
/// GIF89a disposal codes
pub open spec fn dispose_of(n: u8) -> Option<DisposalMethod> {
    if n == 0 { Some(DisposalMethod::Any) } else if n == 1 { Some(DisposalMethod::Keep) }
    else if n == 2 { Some(DisposalMethod::Background) } else if n == 3 { Some(DisposalMethod::Previous) } else { None }
}
pub open spec fn dispose_code(d: DisposalMethod) -> u8 {
    match d { DisposalMethod::Any => 0, DisposalMethod::Keep => 1, DisposalMethod::Background => 2, DisposalMethod::Previous => 3 }
}
pub open spec fn block_of(n: u8) -> Option<Block> {
    if n == 0x2C { Some(Block::Image) } else if n == 0x21 { Some(Block::Extension) } else if n == 0x3B { Some(Block::Trailer) } else { None }
}
pub open spec fn known_ext(n: u8) -> Option<Extension> {
    if n == 0x01 { Some(Extension::Text) } else if n == 0xF9 { Some(Extension::Control) }
    else if n == 0xFE { Some(Extension::Comment) } else if n == 0xFF { Some(Extension::Application) } else { None }
}
}
