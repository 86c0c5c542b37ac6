// ---- token streams: types, specification of the layout operations ----
#[verifier::external_body]
pub struct ItemStr { _x: core::marker::PhantomData<()> }
impl View for ItemStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }

pub trait Lang: Sized { type Config; type Format: Default; type Item; }

@type tokens::item::Item
@type tokens::tokens::Tokens

@include tokens_spec.vrs
