// ---- T04: what is put into a stream adds exactly its own content ----
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use core::fmt::Arguments;
use std::borrow::Cow;
use std::rc::Rc;
use std::vec;
use std::slice;
verus! {
@include std_model.vrs
pub mod base {
use super::*;
@include tokens_core.vrs
impl Clone for ItemStr { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
}
use base::*;
broadcast use {stdm::axiom_into_seq_option, stdm::axiom_into_iter, into::axiom_lit, into::axiom_lit_of, into::axiom_into_seq_tokens, into::axiom_iter_ok_tokens, into::axiom_own_iter};
@include tokens_fns.vrs
pub mod iters {
use super::*;
// ---- iterating over a stream ----
@type tokens::tokens::IntoIter [IntoIter < Item < L > > => vec::IntoIter<Item<L>>]
@type tokens::tokens::Iter [Iter < 'a, Item < L > > => slice::Iter<'a, Item<L>>]
impl<L: Lang> vstd::std_specs::iter::IteratorSpecImpl for IntoIter<L> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&self.iter) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Item<L>> { vstd::std_specs::iter::IteratorSpec::remaining(&self.iter) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { vstd::std_specs::iter::IteratorSpec::will_return_none(&self.iter) }
    open spec fn decrease(&self) -> Option<nat> { vstd::std_specs::iter::IteratorSpec::decrease(&self.iter) }
    open spec fn peek(&self, index: int) -> Option<Item<L>> { vstd::std_specs::iter::IteratorSpec::peek(&self.iter, index) }
}
impl<'a, L: Lang> vstd::std_specs::iter::IteratorSpecImpl for Iter<'a, L> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&self.iter) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<&'a Item<L>> { vstd::std_specs::iter::IteratorSpec::remaining(&self.iter) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { vstd::std_specs::iter::IteratorSpec::will_return_none(&self.iter) }
    open spec fn decrease(&self) -> Option<nat> { vstd::std_specs::iter::IteratorSpec::decrease(&self.iter) }
    open spec fn peek(&self, index: int) -> Option<&'a Item<L>> { vstd::std_specs::iter::IteratorSpec::peek(&self.iter, index) }
}
impl<L: Lang> Iterator for IntoIter<L> {
    type Item = Item<L>;
@fn tokens::tokens|IntoIter<L>|Iterator|next -> r nopub
@done
}
impl<'a, L: Lang> Iterator for Iter<'a, L> {
    type Item = &'a Item<L>;
@fn tokens::tokens|Iter<L>|Iterator|next -> r nopub
@done
}
impl<L: Lang> IntoIter<L> {
/// what is said about how many items come is right
@fn tokens::tokens|IntoIter<L>|Iterator|size_hint -> r as size_hint_here
    ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&self.iter) ==>
        r.0 <= vstd::std_specs::iter::IteratorSpec::remaining(&self.iter).len()
        && (r.1 is Some ==> vstd::std_specs::iter::IteratorSpec::remaining(&self.iter).len() <= r.1->Some_0),
@subst self.iter.size_hint() => size_hint_of(&self.iter)
@done
}
impl<'a, L: Lang> Iter<'a, L> {
/// what is said about how many items come is right
@fn tokens::tokens|Iter<L>|Iterator|size_hint -> r as size_hint_here
    ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&self.iter) ==>
        r.0 <= vstd::std_specs::iter::IteratorSpec::remaining(&self.iter).len()
        && (r.1 is Some ==> vstd::std_specs::iter::IteratorSpec::remaining(&self.iter).len() <= r.1->Some_0),
@subst self.iter.size_hint() => size_hint_of(&self.iter)
@done
}
impl<L: Lang> Tokens<L> {
@fn tokens::tokens|Tokens<L>||iter -> r
    ensures items_of(vstd::std_specs::iter::IteratorSpec::remaining(&r)) == self.items@,
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
@end
    assert(items_of(vstd::std_specs::iter::IteratorSpec::remaining(&xt_ret)) =~= self.items@);
@done
}
impl<L: Lang> IntoIterator for Tokens<L> {
    type Item = Item<L>;
    type IntoIter = IntoIter<L>;
@fn tokens::tokens|Tokens<L>|IntoIterator|into_iter -> r nopub
    ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == self.items@,
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
@done
}
impl<'a, L: Lang> IntoIterator for &'a Tokens<L> {
    type Item = &'a Item<L>;
    type IntoIter = Iter<'a, L>;
@fn tokens::tokens|&Tokens<L>|IntoIterator|into_iter -> r nopub
    ensures items_of(vstd::std_specs::iter::IteratorSpec::remaining(&r)) == self.items@,
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
@done
}
}
use iters::*;
pub mod into {
use super::*;
/// something that can be put into a stream
pub trait FormatInto<L: Lang>: Sized {
    /// it may be put into the stream t
    #[verifier::prophetic]
    spec fn ok(self, t: TS<L>) -> bool;
    /// u is t with it put in
    #[verifier::prophetic]
    spec fn adds(self, t: TS<L>, u: TS<L>) -> bool;
    fn format_into(self, tokens: &mut Tokens<L>)
        requires old(tokens).inv(), self.ok(old(tokens).st()),
        ensures self.adds(old(tokens).st(), final(tokens).st()), final(tokens).inv();
}
/// each of s, one after another
#[verifier::prophetic]
pub open spec fn adds_all<L: Lang, T: FormatInto<L>>(s: Seq<T>, t: TS<L>, u: TS<L>) -> bool decreases s.len() {
    if s.len() == 0 { u == t } else { exists|m: TS<L>| adds_all(s.drop_last(), t, m) && #[trigger] s.last().adds(m, u) }
}
#[verifier::prophetic]
pub open spec fn ok_all<L: Lang, T: FormatInto<L>>(s: Seq<T>, t: TS<L>) -> bool decreases s.len() {
    s.len() > 0 ==> ok_all(s.drop_last(), t) && forall|m: TS<L>| inv(m) && adds_all(s.drop_last(), t, m) ==> #[trigger] s.last().ok(m)
}
pub proof fn lemma_ok_all<L: Lang, T: FormatInto<L>>(s: Seq<T>, t: TS<L>, i: int)
    requires ok_all(s, t), 0 <= i <= s.len(),
    ensures ok_all(s.take(i), t),
    decreases s.len() - i
{
    if i < s.len() {
        lemma_ok_all(s, t, i + 1);
        assert(s.take(i + 1).drop_last() =~= s.take(i));
    } else { assert(s.take(i) =~= s); }
}
/// one step of putting in each of s
pub proof fn lemma_step<L: Lang, T: FormatInto<L>>(s: Seq<T>, t: TS<L>, i: int, m: TS<L>)
    requires ok_all(s, t), 0 <= i < s.len(), adds_all(s.take(i), t, m), inv(m),
    ensures s[i].ok(m), forall|u: TS<L>| s[i].adds(m, u) ==> #[trigger] adds_all(s.take(i + 1), t, u)
{
    lemma_ok_all(s, t, i + 1);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
    assert forall|u: TS<L>| s[i].adds(m, u) implies #[trigger] adds_all(s.take(i + 1), t, u) by {
        assert(s.take(i + 1).last().adds(m, u));
    }
}
/// the items of a stream, as they are when it is iterated over by reference
pub open spec fn items_of<L: Lang>(s: Seq<&Item<L>>) -> Seq<Item<L>> { s.map_values(|i: &Item<L>| *i) }
/// one literal with the text s
pub open spec fn one_lit<L: Lang>(t: TS<L>, u: TS<L>, s: Seq<char>) -> bool { u == op_item(t, Item::Literal(lit(s))) }
/// the string with the text s (a string is determined by its text: mod item_str)
pub uninterp spec fn lit(s: Seq<char>) -> ItemStr;
pub broadcast axiom fn axiom_lit(s: Seq<char>) ensures (#[trigger] lit(s))@ == s;
pub broadcast axiom fn axiom_lit_of(s: ItemStr) ensures lit(#[trigger] s@) == s;
/// what core::fmt::Display writes for a value
pub uninterp spec fn shown<T: ?Sized>(t: &T) -> Seq<char>;
/// alloc: to_string is what Display writes
#[verifier::external_body]
pub fn xt_to_string<T: core::fmt::Display + ?Sized>(t: &T) -> (r: String) ensures r@ == shown(t) { unimplemented!() }
/// what a string is made of: discharged for each kind in mod item_str
pub trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a, T: Text + ?Sized> Text for &'a T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
impl<T: Text + ?Sized> Text for Box<T> { open spec fn text(&self) -> Seq<char> { (**self).text() } }
impl<T: Text + ?Sized> Text for Rc<T> { open spec fn text(&self) -> Seq<char> { (**self).text() } }
#[verifier::external_body]
pub fn item_str<T: Text>(t: T) -> (r: ItemStr) ensures r@ == t.text() { unimplemented!() }
impl vstd::std_specs::convert::FromSpecImpl<String> for ItemStr {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: String) -> Self { lit(v.text()) }
}
/// discharged in mod item_strs
impl From<String> for ItemStr { #[verifier::external_body] fn from(v: String) -> Self { unimplemented!() } }
impl<'x> vstd::std_specs::convert::FromSpecImpl<&'x str> for ItemStr {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'x str) -> Self { lit(v.text()) }
}
/// discharged in mod item_strs
impl<'x> From<&'x str> for ItemStr { #[verifier::external_body] fn from(v: &'x str) -> Self { unimplemented!() } }
impl<'x> vstd::std_specs::convert::FromSpecImpl<&'x String> for ItemStr {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'x String) -> Self { lit(v.text()) }
}
/// discharged in mod item_strs
impl<'x> From<&'x String> for ItemStr { #[verifier::external_body] fn from(v: &'x String) -> Self { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Box<str>> for ItemStr {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Box<str>) -> Self { lit(v.text()) }
}
/// discharged in mod item_strs
impl From<Box<str>> for ItemStr { #[verifier::external_body] fn from(v: Box<str>) -> Self { unimplemented!() } }
/// discharged in mod item_str: the text of a static string is that string
#[verifier::external_body]
pub fn static_str(s: &'static str) -> (r: ItemStr) ensures r@ == s@ { unimplemented!() }
pub open spec fn cow_text(c: &Cow<'_, str>) -> Seq<char> { match c { Cow::Borrowed(b) => b@, Cow::Owned(o) => o@ } }
pub open spec fn cow_seq<T: Clone>(c: &Cow<'_, [T]>) -> Seq<T> { match c { Cow::Borrowed(b) => b@, Cow::Owned(o) => o@ } }
/// alloc
#[verifier::external_body]
pub fn boxed_str(s: String) -> (r: Box<str>) ensures r.text() == s@ { unimplemented!() }
/// the items a stream yields are its items (discharged here: into_iter and IntoIter::next)
pub broadcast axiom fn axiom_into_seq_tokens<L: Lang>(t: Tokens<L>) ensures #[trigger] into_seq(t) == t.items@;
pub broadcast axiom fn axiom_iter_ok_tokens<L: Lang>(t: Tokens<L>) ensures #[trigger] iter_ok(t);
/// core: an iterator is its own iterator
pub broadcast axiom fn axiom_own_iter<I: IntoIterator>(i: I, r: I::IntoIter)
    requires #[trigger] call_ensures(I::into_iter, (i,), r), iter_ok(i)
    ensures iter_ok(r), into_seq(r) == into_seq(i);
/// core: Iterator::cloned yields a clone of each item, in order
#[verifier::external_body]
pub fn xt_cloned<'a, L: Lang, I: Iterator<Item = &'a Item<L>>>(i: I) -> (r: std::vec::IntoIter<Item<L>>) where L: 'a
    ensures iter_ok(r), into_seq(r) == items_of(vstd::std_specs::iter::IteratorSpec::remaining(&i))
{ unimplemented!() }
/// core, for every type that is cloned: a clone is equal to the original
#[verifier::external_body]
pub fn xt_clone<T: Clone>(t: &T) -> (r: T) ensures r == *t { t.clone() }
}
use into::*;

impl<L: Lang> Tokens<L> {
@fn tokens::tokens|Tokens<L>||append
    requires old(self).inv(), tokens.ok(old(self).st()),
    ensures tokens.adds(old(self).st(), final(self).st()), final(self).inv(),
@done
}
impl<L: Lang> FormatInto<L> for Item<L> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { item_fits(t, self) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { u == op_item(t, self) }
@fn tokens::item|Item<L>|FormatInto<L>|format_into nopub
@done
}
impl<L: Lang, T: FormatInto<L>> FormatInto<L> for Option<T> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { match self { Some(x) => x.ok(t), None => true } }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { match self { Some(x) => x.adds(t, u), None => u == t } }
@fn tokens::format_into|Option<T>|FormatInto<L>|format_into nopub
@done
}
impl<L: Lang> FormatInto<L> for ItemStr {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, self@) }
@fn tokens::item_str|ItemStr|FormatInto<L>|format_into nopub
@done
}
impl<L: Lang> FormatInto<L> for &ItemStr {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, self@) }
@fn tokens::item_str|&ItemStr|FormatInto<L>|format_into nopub
@subst self.clone() => xt_clone(self)
@done
}
impl<L: Lang> FormatInto<L> for &str {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, self@) }
@fn tokens::format_into|&str|FormatInto<L>|format_into nopub
@subst ItemStr :: from => item_str
@done
}
impl<L: Lang> FormatInto<L> for &String {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, self@) }
@fn tokens::format_into|&String|FormatInto<L>|format_into nopub
@subst ItemStr :: from => item_str
@done
}
impl<L: Lang> FormatInto<L> for String {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, self@) }
@fn tokens::format_into|String|FormatInto<L>|format_into nopub
@subst ItemStr :: from => item_str
@done
}
impl<L: Lang> FormatInto<L> for Rc<String> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, self@) }
@fn tokens::format_into|Rc<String>|FormatInto<L>|format_into nopub
@subst ItemStr :: from => item_str
@done
}
impl<L: Lang> FormatInto<L> for &Rc<String> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, self@) }
@fn tokens::format_into|&Rc<String>|FormatInto<L>|format_into nopub
@subst ItemStr :: from => item_str
@subst self.clone() => xt_clone(self)
@done
}
impl<L: Lang> FormatInto<L> for Arguments<'_> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|Arguments|FormatInto<L>|format_into nopub
@subst ItemStr :: from => item_str
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for Cow<'_, str> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, cow_text(&self)) }
@fn tokens::format_into|Cow<str>|FormatInto<L>|format_into nopub
@subst ItemStr :: from => item_str
@done
}
impl<L: Lang> FormatInto<L> for &Cow<'_, str> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, cow_text(self)) }
@fn tokens::format_into|&Cow<str>|FormatInto<L>|format_into nopub
@subst ItemStr :: from => item_str
@done
}
impl<L: Lang> FormatInto<L> for u8 {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|u8|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for u16 {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|u16|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for u32 {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|u32|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for u64 {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|u64|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for u128 {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|u128|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for i8 {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|i8|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for i16 {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|i16|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for i32 {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|i32|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for i64 {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|i64|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for i128 {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|i128|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for isize {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|isize|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}
impl<L: Lang> FormatInto<L> for usize {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self)) }
@fn tokens::format_into|usize|FormatInto<L>|format_into nopub
@subst self.to_string() => xt_to_string(&self)
@done
}

impl<L: Lang, T: FormatInto<L>> FormatInto<L> for Vec<T> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { ok_all(self@, t) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { adds_all(self@, t, u) }
@fn tokens::format_into|Vec<T>|FormatInto<L>|format_into nopub
@start
    let ghost all = self@;
    let ghost t0 = tokens.st();
@loop 0 for t in self
    invariant it0.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] all[i] == it0.seq()[i],
        ok_all(all, t0), tokens.inv(), adds_all(all.take(it0.index()), t0, tokens.st()),
@lstart 0
    proof { lemma_step(all, t0, it0.index(), tokens.st()); }
@end
    assert(all.take(all.len() as int) =~= all);
@done
}
impl<L: Lang, T: FormatInto<L> + Clone> FormatInto<L> for &Vec<T> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { ok_all(self@, t) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { adds_all(self@, t, u) }
@fn tokens::format_into|&Vec<T>|FormatInto<L>|format_into nopub
@subst t.clone() => xt_clone(t)
@start
    let ghost all = self@;
    let ghost t0 = tokens.st();
@loop 0 for t in self
    invariant it0.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] all[i] == *it0.seq()[i],
        ok_all(all, t0), tokens.inv(), adds_all(all.take(it0.index()), t0, tokens.st()),
@lstart 0
    proof { lemma_step(all, t0, it0.index(), tokens.st()); }
@end
    assert(all.take(all.len() as int) =~= all);
@done
}
impl<L: Lang, T: FormatInto<L> + Clone> FormatInto<L> for &[T] {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { ok_all(self@, t) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { adds_all(self@, t, u) }
@fn tokens::format_into|&[T]|FormatInto<L>|format_into nopub
@subst t.clone() => xt_clone(t)
@start
    let ghost all = self@;
    let ghost t0 = tokens.st();
@loop 0 for t in self
    invariant it0.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] all[i] == *it0.seq()[i],
        ok_all(all, t0), tokens.inv(), adds_all(all.take(it0.index()), t0, tokens.st()),
@lstart 0
    proof { lemma_step(all, t0, it0.index(), tokens.st()); }
@end
    assert(all.take(all.len() as int) =~= all);
@done
}
impl<L: Lang, T: FormatInto<L> + Clone> FormatInto<L> for Cow<'_, [T]> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { ok_all(cow_seq(&self), t) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { adds_all(cow_seq(&self), t, u) }
@fn tokens::format_into|Cow<[T]>|FormatInto<L>|format_into nopub
@subst t.clone() => xt_clone(t)
@start
    let ghost all = cow_seq(&self);
    let ghost t0 = tokens.st();
@loop 0 for t in b.iter()
    invariant it0.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] all[i] == *it0.seq()[i],
        ok_all(all, t0), tokens.inv(), adds_all(all.take(it0.index()), t0, tokens.st()),
@lstart 0
    proof { lemma_step(all, t0, it0.index(), tokens.st()); }
@end
    assert(all.take(all.len() as int) =~= all);
@done
}
impl<L: Lang, T: FormatInto<L> + Clone> FormatInto<L> for &Cow<'_, [T]> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { ok_all(cow_seq(self), t) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { adds_all(cow_seq(self), t, u) }
@fn tokens::format_into|&Cow<[T]>|FormatInto<L>|format_into nopub
@subst t.clone() => xt_clone(t)
@start
    let ghost all = cow_seq(self);
    let ghost t0 = tokens.st();
@loop 0 for t in b.iter()
    invariant it0.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] all[i] == *it0.seq()[i],
        ok_all(all, t0), tokens.inv(), adds_all(all.take(it0.index()), t0, tokens.st()),
@lstart 0
    proof { lemma_step(all, t0, it0.index(), tokens.st()); }
@end
    assert(all.take(all.len() as int) =~= all);
@done
}


impl<L: Lang> Tokens<L> {
/// Tokens::with_capacity, asked for room for no more items than come
fn xt_with_capacity(come: Ghost<nat>, n: usize) -> (r: Self)
    requires room_ok(n, come@),
    ensures r.items@ == Seq::<Item<L>>::empty(), r.last_lang_item == 0, r.inv(),
{ Self::with_capacity(n) }
@fn tokens::tokens|Tokens<L>|FromIterator<Item<L>>|from_iter -> r
    requires iter_ok(iter), all_fit(ts_empty(), into_seq(iter)),
    ensures r.st() == append_all(ts_empty(), into_seq(iter)), r.inv(),
@subst it.size_hint() => size_hint_of(&it)
@subst Self::with_capacity( => Self::xt_with_capacity(Ghost(into_seq(i0).len()), 
@start
    let ghost i0 = iter;
@subst from_iter => from_items
@done
@fn tokens::tokens|Tokens<L>|FromIterator<&Item<L>>|from_iter -> r
@sig pub fn from_refs<'a, I: IntoIterator<Item = &'a Item<L>>>(iter: I) -> (r: Self) where L: 'a
    requires iter_ok(iter), all_fit(ts_empty(), items_of(into_seq(iter))),
    ensures r.st() == append_all(ts_empty(), items_of(into_seq(iter))), r.inv(),
@subst it.size_hint() => size_hint_of(&it)
@subst Self::with_capacity( => Self::xt_with_capacity(Ghost(into_seq(i0).len()), 
@start
    let ghost i0 = iter;
@subst it.cloned() => xt_cloned(it)
@done
}
impl<L: Lang> FormatInto<L> for Tokens<L> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { all_fit(t, self.items@) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { u == append_all(t, self.items@) }
@fn tokens::format_into|Tokens<L>|FormatInto<L>|format_into nopub
@done
}
impl<L: Lang> FormatInto<L> for &Tokens<L> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { all_fit(t, self.items@) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { u == append_all(t, self.items@) }
@fn tokens::format_into|&Tokens<L>|FormatInto<L>|format_into nopub
@subst self.iter().cloned() => xt_cloned(self.iter())
@done
}

// ---- what wraps something else ----
@type tokens::quoted::QuotedFn
@fn tokens::quoted|||quoted -> r
    ensures r.inner == inner
@done
impl<T: FormatInto<L>, L: Lang> FormatInto<L> for QuotedFn<T> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { self.inner.ok(op_item(t, Item::OpenQuote(false))) }
    /// the opening of a string, what is in it, and its end
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { exists|m: TS<L>| #[trigger] self.inner.adds(op_item(t, Item::OpenQuote(false)), m) && u == op_item(m, Item::CloseQuote) }
@fn tokens::quoted|QuotedFn<T>|FormatInto<L>|format_into nopub
@done
}
@type tokens::static_literal::StaticLiteral
@fn tokens::static_literal|||static_literal -> r
    ensures r.literal@ == literal@
@done
impl<L: Lang> FormatInto<L> for StaticLiteral {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, self.literal@) }
@fn tokens::static_literal|StaticLiteral|FormatInto<L>|format_into nopub
@subst ItemStr :: Static => static_str
@done
}
@type tokens::display::Display
@fn tokens::display|||display -> r
    ensures r.inner == inner
@subst where T : Display => where T: core::fmt::Display
@done
impl<T: core::fmt::Display, L: Lang> FormatInto<L> for Display<T> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { true }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { one_lit(t, u, shown(&self.inner)) }
@fn tokens::display|Display<T>|FormatInto<L>|format_into nopub
@subst self.inner.to_string().into_boxed_str().into() => item_str(boxed_str(xt_to_string(&self.inner)))
@done
}
@type tokens::from_fn::FromFn
@fn tokens::from_fn|||from_fn -> r
    ensures r.f == f
@done
impl<L: Lang, F: FnOnce(&mut Tokens<L>)> FormatInto<L> for FromFn<F> {
    /// the function may be called, and keeps the stream well-formed
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool {
        &&& forall|x: &mut Tokens<L>| x.st() == t ==> #[trigger] call_requires(self.f, (x,))
        &&& forall|x: &mut Tokens<L>| x.st() == t && #[trigger] call_ensures(self.f, (x,), ()) ==> final(x).inv()
    }
    /// what one call of the function does to the stream
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { exists|x: &mut Tokens<L>| x.st() == t && final(x).st() == u && #[trigger] call_ensures(self.f, (x,), ()) }
@fn tokens::from_fn|FromFn<F>|FormatInto<L>|format_into nopub
@done
}
// ---- imports ----
@fn tokens::internal|||__lang_item -> r
    ensures forall|t: TS<L>| inv(t) && t.items.len() < usize::MAX ==> #[trigger] r.ok(t),
        forall|t: TS<L>, u: TS<L>| #[trigger] r.adds(t, u) ==> u == op_lang(t, Box::new(item)),
@subst from_fn(| t | => from_fn(move |t: &mut Tokens<L>| requires old(t).inv(), old(t).items@.len() < usize::MAX ensures final(t).st() == op_lang(old(t).st(), Box::new(item)), final(t).inv()
@done
@fn tokens::internal|||__lang_item_register -> r
    ensures forall|t: TS<L>| inv(t) && t.items.len() < usize::MAX ==> #[trigger] r.ok(t),
        forall|t: TS<L>, u: TS<L>| #[trigger] r.adds(t, u) ==> u == op_register(t, Box::new(item)),
@subst from_fn(| t | => from_fn(move |t: &mut Tokens<L>| requires old(t).inv(), old(t).items@.len() < usize::MAX ensures final(t).st() == op_register(old(t).st(), Box::new(item)), final(t).inv()
@done
pub mod regm {
use super::*;
/// something that can be registered as an import
pub trait Register<L: Lang>: Sized {
    #[verifier::prophetic]
    spec fn rok(self, t: TS<L>) -> bool;
    #[verifier::prophetic]
    spec fn regs(self, t: TS<L>, u: TS<L>) -> bool;
    fn register(self, tokens: &mut Tokens<L>)
        requires old(tokens).inv(), self.rok(old(tokens).st()),
        ensures self.regs(old(tokens).st(), final(tokens).st()), final(tokens).inv();
}
}
use regm::*;
@type tokens::register::RegisterFn
impl<L: Lang> Tokens<L> {
@fn tokens::tokens|Tokens<L>||register
    requires old(self).inv(), tokens.rok(old(self).st()),
    ensures tokens.regs(old(self).st(), final(self).st()), final(self).inv(),
@done
}
@fn tokens::register|||register -> r
    ensures r.inner == inner
@done
impl<T: Register<L>, L: Lang> FormatInto<L> for RegisterFn<T> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { self.inner.rok(t) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { self.inner.regs(t, u) }
@fn tokens::register|RegisterFn<T>|FormatInto<L>|format_into nopub
@done
}
impl<L: Lang, T1: Register<L>> Register<L> for (T1, ) {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<L>) -> bool { self.0.rok(t) }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<L>, u: TS<L>) -> bool { self.0.regs(t, u) }
@fn tokens::register|(T1,)|Register<L>|register nopub
@done
}
impl<L: Lang, T1: Register<L>, T2: Register<L>> Register<L> for (T1, T2, ) {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<L>) -> bool { self.0.rok(t) && (forall|m1: TS<L>| inv(m1) && #[trigger] self.0.regs(t, m1) ==> self.1.rok(m1)) }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<L>, u: TS<L>) -> bool { exists|m1: TS<L>| #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, u) }
@fn tokens::register|(T1,T2)|Register<L>|register nopub
@done
}
impl<L: Lang, T1: Register<L>, T2: Register<L>, T3: Register<L>> Register<L> for (T1, T2, T3, ) {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<L>) -> bool { self.0.rok(t) && (forall|m1: TS<L>| inv(m1) && #[trigger] self.0.regs(t, m1) ==> self.1.rok(m1)) && (forall|m1: TS<L>, m2: TS<L>| inv(m2) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) ==> self.2.rok(m2)) }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<L>, u: TS<L>) -> bool { exists|m1: TS<L>, m2: TS<L>| #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, u) }
@fn tokens::register|(T1,T2,T3)|Register<L>|register nopub
@done
}
impl<L: Lang, T1: Register<L>, T2: Register<L>, T3: Register<L>, T4: Register<L>> Register<L> for (T1, T2, T3, T4, ) {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<L>) -> bool { self.0.rok(t) && (forall|m1: TS<L>| inv(m1) && #[trigger] self.0.regs(t, m1) ==> self.1.rok(m1)) && (forall|m1: TS<L>, m2: TS<L>| inv(m2) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) ==> self.2.rok(m2)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>| inv(m3) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) ==> self.3.rok(m3)) }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<L>, u: TS<L>) -> bool { exists|m1: TS<L>, m2: TS<L>, m3: TS<L>| #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, u) }
@fn tokens::register|(T1,T2,T3,T4)|Register<L>|register nopub
@done
}
impl<L: Lang, T1: Register<L>, T2: Register<L>, T3: Register<L>, T4: Register<L>, T5: Register<L>> Register<L> for (T1, T2, T3, T4, T5, ) {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<L>) -> bool { self.0.rok(t) && (forall|m1: TS<L>| inv(m1) && #[trigger] self.0.regs(t, m1) ==> self.1.rok(m1)) && (forall|m1: TS<L>, m2: TS<L>| inv(m2) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) ==> self.2.rok(m2)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>| inv(m3) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) ==> self.3.rok(m3)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>| inv(m4) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) ==> self.4.rok(m4)) }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<L>, u: TS<L>) -> bool { exists|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>| #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) && #[trigger] self.4.regs(m4, u) }
@fn tokens::register|(T1,T2,T3,T4,T5)|Register<L>|register nopub
@done
}
impl<L: Lang, T1: Register<L>, T2: Register<L>, T3: Register<L>, T4: Register<L>, T5: Register<L>, T6: Register<L>> Register<L> for (T1, T2, T3, T4, T5, T6, ) {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<L>) -> bool { self.0.rok(t) && (forall|m1: TS<L>| inv(m1) && #[trigger] self.0.regs(t, m1) ==> self.1.rok(m1)) && (forall|m1: TS<L>, m2: TS<L>| inv(m2) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) ==> self.2.rok(m2)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>| inv(m3) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) ==> self.3.rok(m3)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>| inv(m4) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) ==> self.4.rok(m4)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>, m5: TS<L>| inv(m5) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) && #[trigger] self.4.regs(m4, m5) ==> self.5.rok(m5)) }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<L>, u: TS<L>) -> bool { exists|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>, m5: TS<L>| #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) && #[trigger] self.4.regs(m4, m5) && #[trigger] self.5.regs(m5, u) }
@fn tokens::register|(T1,T2,T3,T4,T5,T6)|Register<L>|register nopub
@done
}
impl<L: Lang, T1: Register<L>, T2: Register<L>, T3: Register<L>, T4: Register<L>, T5: Register<L>, T6: Register<L>, T7: Register<L>> Register<L> for (T1, T2, T3, T4, T5, T6, T7, ) {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<L>) -> bool { self.0.rok(t) && (forall|m1: TS<L>| inv(m1) && #[trigger] self.0.regs(t, m1) ==> self.1.rok(m1)) && (forall|m1: TS<L>, m2: TS<L>| inv(m2) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) ==> self.2.rok(m2)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>| inv(m3) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) ==> self.3.rok(m3)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>| inv(m4) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) ==> self.4.rok(m4)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>, m5: TS<L>| inv(m5) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) && #[trigger] self.4.regs(m4, m5) ==> self.5.rok(m5)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>, m5: TS<L>, m6: TS<L>| inv(m6) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) && #[trigger] self.4.regs(m4, m5) && #[trigger] self.5.regs(m5, m6) ==> self.6.rok(m6)) }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<L>, u: TS<L>) -> bool { exists|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>, m5: TS<L>, m6: TS<L>| #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) && #[trigger] self.4.regs(m4, m5) && #[trigger] self.5.regs(m5, m6) && #[trigger] self.6.regs(m6, u) }
@fn tokens::register|(T1,T2,T3,T4,T5,T6,T7)|Register<L>|register nopub
@done
}
impl<L: Lang, T1: Register<L>, T2: Register<L>, T3: Register<L>, T4: Register<L>, T5: Register<L>, T6: Register<L>, T7: Register<L>, T8: Register<L>> Register<L> for (T1, T2, T3, T4, T5, T6, T7, T8, ) {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<L>) -> bool { self.0.rok(t) && (forall|m1: TS<L>| inv(m1) && #[trigger] self.0.regs(t, m1) ==> self.1.rok(m1)) && (forall|m1: TS<L>, m2: TS<L>| inv(m2) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) ==> self.2.rok(m2)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>| inv(m3) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) ==> self.3.rok(m3)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>| inv(m4) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) ==> self.4.rok(m4)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>, m5: TS<L>| inv(m5) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) && #[trigger] self.4.regs(m4, m5) ==> self.5.rok(m5)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>, m5: TS<L>, m6: TS<L>| inv(m6) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) && #[trigger] self.4.regs(m4, m5) && #[trigger] self.5.regs(m5, m6) ==> self.6.rok(m6)) && (forall|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>, m5: TS<L>, m6: TS<L>, m7: TS<L>| inv(m7) && #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) && #[trigger] self.4.regs(m4, m5) && #[trigger] self.5.regs(m5, m6) && #[trigger] self.6.regs(m6, m7) ==> self.7.rok(m7)) }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<L>, u: TS<L>) -> bool { exists|m1: TS<L>, m2: TS<L>, m3: TS<L>, m4: TS<L>, m5: TS<L>, m6: TS<L>, m7: TS<L>| #[trigger] self.0.regs(t, m1) && #[trigger] self.1.regs(m1, m2) && #[trigger] self.2.regs(m2, m3) && #[trigger] self.3.regs(m3, m4) && #[trigger] self.4.regs(m4, m5) && #[trigger] self.5.regs(m5, m6) && #[trigger] self.6.regs(m6, m7) && #[trigger] self.7.regs(m7, u) }
@fn tokens::register|(T1,T2,T3,T4,T5,T6,T7,T8)|Register<L>|register nopub
@done
}

// ---- strings themselves: the real type, and the text of what each conversion makes ----
pub mod item_strs {
use super::*;
broadcast use vstd::string::group_string_axioms;
@type tokens::item_str::ItemStr
impl View for ItemStr {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> { match self { ItemStr::Box(b) => b@, ItemStr::Static(s) => s@ } }
}
/// alloc: the conversions between strings, which keep the text
pub trait XOwned { spec fn owned(&self) -> Seq<char>; fn x_owned(&self) -> (r: String) ensures r@ == self.owned(); }
impl XOwned for str { open spec fn owned(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_owned(&self) -> (r: String) { unimplemented!() } }
pub trait XBoxed { spec fn boxes(&self) -> Seq<char>; fn x_boxed(self) -> (r: Box<str>) where Self: Sized ensures r@ == self.boxes(); }
impl XBoxed for String { open spec fn boxes(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_boxed(self) -> (r: Box<str>) { unimplemented!() } }
#[verifier::external_body]
pub fn xt_clone_text(t: &Box<str>) -> (r: Box<str>) ensures r@ == t@ { unimplemented!() }
impl ItemStr {
@fn tokens::item_str|ItemStr|Clone|clone -> r
    ensures r@ == self@
@subst fn clone => fn clone_item
@subst Box(Clone :: clone(__self_0)) => Box(xt_clone_text(__self_0))
@subst Static(Clone :: clone(__self_0)) => Static(*__self_0)
@done
@fn tokens::item_str|ItemStr|AsRef<str>|as_ref -> r
    ensures r@ == self@
@done
@fn tokens::item_str|ItemStr|Deref|deref -> r
    ensures r@ == self@
@done
@fn tokens::item_str|ItemStr|PartialEq|eq -> r
    ensures r == (self@ == other@)
@done
@fn tokens::item_str|ItemStr|From<Box<str>>|from -> r
@sig pub fn from_box(value: Box<str>) -> (r: Self)
    ensures r@ == value.text()
@subst .into_boxed_str() => .x_boxed()
@subst .to_owned() => .x_owned()
@done
@fn tokens::item_str|ItemStr|From<&ItemStr>|from -> r
@sig pub fn from_item(value: &ItemStr) -> (r: Self)
    ensures r@ == value@
@subst value.clone() => value.clone_item()
@subst .into_boxed_str() => .x_boxed()
@subst .to_owned() => .x_owned()
@done
@fn tokens::item_str|ItemStr|From<&String>|from -> r
@sig pub fn from_string_ref(value: &String) -> (r: Self)
    ensures r@ == value@
@subst .into_boxed_str() => .x_boxed()
@subst .to_owned() => .x_owned()
@done
@fn tokens::item_str|ItemStr|From<String>|from -> r
@sig pub fn from_string(value: String) -> (r: Self)
    ensures r@ == value@
@subst .into_boxed_str() => .x_boxed()
@subst .to_owned() => .x_owned()
@done
@fn tokens::item_str|ItemStr|From<&str>|from -> r
@sig pub fn from_str(value: &str) -> (r: Self)
    ensures r@ == value@
@subst .into_boxed_str() => .x_boxed()
@subst .to_owned() => .x_owned()
@done
@fn tokens::item_str|ItemStr|From<&&str>|from -> r
@sig pub fn from_str_ref(value: &&str) -> (r: Self)
    ensures r@ == (*value)@
@subst .into_boxed_str() => .x_boxed()
@subst .to_owned() => .x_owned()
@done
@fn tokens::item_str|ItemStr|From<Cow<str>>|from -> r
@sig pub fn from_cow(value: Cow<'_, str>) -> (r: Self)
    ensures r@ == cow_text(&value)
@subst .into_boxed_str() => .x_boxed()
@subst .to_owned() => .x_owned()
@done
@fn tokens::item_str|ItemStr|From<&Cow<str>>|from -> r
@sig pub fn from_cow_ref(value: &Cow<'_, str>) -> (r: Self)
    ensures r@ == cow_text(value)
@subst .into_boxed_str() => .x_boxed()
@subst .to_owned() => .x_owned()
@done
@fn tokens::item_str|ItemStr|From<Rc<String>>|from -> r
@sig pub fn from_rc(value: Rc<String>) -> (r: Self)
    ensures r@ == value@
@subst .into() => .x_boxed()
@subst .into_boxed_str() => .x_boxed()
@subst .to_owned() => .x_owned()
@done
}
}

pub mod theorems {
use super::*;
/// T04: a list of texts adds one literal for each, in order, and nothing else
pub proof fn theorem_texts<L: Lang>(s: Seq<&'static str>, t: TS<L>, u: TS<L>)
    requires adds_all::<L, &'static str>(s, t, u),
    ensures u.items == t.items + s.map_values(|x: &'static str| Item::<L>::Literal(lit(x@))), u.last == t.last,
    decreases s.len()
{
    let f = |x: &'static str| Item::<L>::Literal(lit(x@));
    if s.len() == 0 { assert(t.items + s.map_values(f) =~= t.items); }
    else {
        let m = choose|m: TS<L>| adds_all(s.drop_last(), t, m) && #[trigger] FormatInto::<L>::adds(s.last(), m, u);
        theorem_texts(s.drop_last(), t, m);
        assert(u.items == m.items.push(f(s.last())));
        assert(s.map_values(f) =~= s.drop_last().map_values(f).push(f(s.last())));
        assert(u.items =~= t.items + s.map_values(f));
    }
}
/// T03, T04: a stream put in as two pieces, one after the other, is put in as a whole
pub proof fn theorem_pieces<L: Lang>(t: TS<L>, a: Seq<Item<L>>, b: Seq<Item<L>>)
    ensures append_all(t, a + b) == append_all(append_all(t, a), b),
        all_fit(t, a + b) == (all_fit(t, a) && all_fit(append_all(t, a), b)),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        theorem_pieces(t, a, b.drop_last());
    }
}
/// T04: an optional value that is not there adds nothing
pub proof fn theorem_none<L: Lang, T: FormatInto<L>>(t: TS<L>, u: TS<L>)
    ensures FormatInto::<L>::adds(None::<T>, t, u) <==> u == t
{ }
}
// ---- the imports of each language, and what holds any of them ----
pub mod langm {
use super::*;
/// writing out: the text so far, whatever an import writes
#[verifier::external_body]
pub struct Formatter<'a> { _x: core::marker::PhantomData<&'a ()> }
pub type FResult = core::result::Result<(), core::fmt::Error>;
/// what __lang_item and __lang_item_register return, known by their contracts only (discharged above)
pub struct ItemFn<L: Lang> { pub x: L::Item }
impl<L: Lang> FormatInto<L> for ItemFn<L> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { inv(t) && t.items.len() < usize::MAX }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { u == op_lang(t, Box::new(self.x)) }
    #[verifier::external_body]
    fn format_into(self, tokens: &mut Tokens<L>) { unimplemented!() }
}
pub fn lang_item_fn<L: Lang>(item: L::Item) -> (r: ItemFn<L>) ensures r.x == item { ItemFn { x: item } }
pub struct RegFn<L: Lang> { pub x: L::Item }
impl<L: Lang> FormatInto<L> for RegFn<L> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<L>) -> bool { inv(t) && t.items.len() < usize::MAX }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<L>, u: TS<L>) -> bool { u == op_register(t, Box::new(self.x)) }
    #[verifier::external_body]
    fn format_into(self, tokens: &mut Tokens<L>) { unimplemented!() }
}
pub fn lang_reg_fn<L: Lang>(item: L::Item) -> (r: RegFn<L>) ensures r.x == item { RegFn { x: item } }
}
use langm::*;
@each c C Import; csharp Csharp Import; dart Dart Import; go Go Import; java Java Import; js JavaScript Import; nix Nix Import; rust Rust Import; swift Swift Import
pub mod {0} {
use super::*;
pub struct {1}(());
pub struct Config {}
pub struct Format {}
impl Default for Format { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
impl Lang for {1} { type Config = Config; type Format = Format; type Item = Any; }
@type lang::{0}::Any
#[verifier::external_body]
pub struct {2} { _x: u8 }
impl {2} {
    /// what the import writes by itself (units i_*)
    pub uninterp spec fn writes(&self, config: &Config, format: &Format, a: Formatter<'_>, b: Formatter<'_>, r: FResult) -> bool;
    #[verifier::external_body]
    pub fn format(&self, out: &mut Formatter<'_>, config: &Config, format: &Format) -> (r: FResult)
        ensures self.writes(config, format, *old(out), *final(out), r)
    { unimplemented!() }
}
impl Clone for {2} { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<{2}> for Any {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: {2}) -> Any { Any::{2}(v) }
}
impl From<{2}> for Any {
@fn lang::{0}|Any|From<{2}>|from -> r nopub
@done
}
impl FormatInto<{1}> for {2} {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<{1}>) -> bool { t.items.len() < usize::MAX }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<{1}>, u: TS<{1}>) -> bool { u == op_lang(t, Box::new(Any::{2}(self))) }
@fn lang::{0}|{2}|FormatInto<{1}>|format_into nopub
@subst __lang_item :: => lang_item_fn ::
@done
}
impl<'a> FormatInto<{1}> for &'a {2} {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<{1}>) -> bool { t.items.len() < usize::MAX }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<{1}>, u: TS<{1}>) -> bool { u == op_lang(t, Box::new(Any::{2}(*self))) }
@fn lang::{0}|&{2}|FormatInto<{1}>|format_into nopub
@subst __lang_item :: => lang_item_fn ::
@subst self.clone() => xt_clone(self)
@done
}
impl Register<{1}> for {2} {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<{1}>) -> bool { t.items.len() < usize::MAX }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<{1}>, u: TS<{1}>) -> bool { u == op_register(t, Box::new(Any::{2}(self))) }
@fn lang::{0}|{2}|Register<{1}>|register nopub
@subst __lang_item_register :: => lang_reg_fn ::
@done
}
impl<'a> Register<{1}> for &'a {2} {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<{1}>) -> bool { t.items.len() < usize::MAX }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<{1}>, u: TS<{1}>) -> bool { u == op_register(t, Box::new(Any::{2}(*self))) }
@fn lang::{0}|&{2}|Register<{1}>|register nopub
@subst __lang_item_register :: => lang_reg_fn ::
@subst self.clone() => xt_clone(self)
@done
}
impl Any {
/// writing the holder of an import writes that import
@fn lang::{0}|Any|LangItem<{1}>|format -> r
@sig pub fn format(&self, out: &mut Formatter<'_>, config: &Config, format: &Format) -> (r: FResult)
    ensures self->Import_0.writes(config, format, *old(out), *final(out), r)
@done
}
}
@endeach
pub mod python {
use super::*;
pub struct Python(());
pub struct Config {}
pub struct Format {}
impl Default for Format { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
impl Lang for Python { type Config = Config; type Format = Format; type Item = Any; }
@type lang::python::Any
@each python Python Import; python Python ImportModule
#[verifier::external_body]
pub struct {2} { _x: u8 }
impl {2} {
    /// what the import writes by itself (units i_*)
    pub uninterp spec fn writes(&self, config: &Config, format: &Format, a: Formatter<'_>, b: Formatter<'_>, r: FResult) -> bool;
    #[verifier::external_body]
    pub fn format(&self, out: &mut Formatter<'_>, config: &Config, format: &Format) -> (r: FResult)
        ensures self.writes(config, format, *old(out), *final(out), r)
    { unimplemented!() }
}
impl Clone for {2} { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<{2}> for Any {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: {2}) -> Any { Any::{2}(v) }
}
impl From<{2}> for Any {
@fn lang::{0}|Any|From<{2}>|from -> r nopub
@done
}
impl FormatInto<{1}> for {2} {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<{1}>) -> bool { t.items.len() < usize::MAX }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<{1}>, u: TS<{1}>) -> bool { u == op_lang(t, Box::new(Any::{2}(self))) }
@fn lang::{0}|{2}|FormatInto<{1}>|format_into nopub
@subst __lang_item :: => lang_item_fn ::
@done
}
impl<'a> FormatInto<{1}> for &'a {2} {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<{1}>) -> bool { t.items.len() < usize::MAX }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<{1}>, u: TS<{1}>) -> bool { u == op_lang(t, Box::new(Any::{2}(*self))) }
@fn lang::{0}|&{2}|FormatInto<{1}>|format_into nopub
@subst __lang_item :: => lang_item_fn ::
@subst self.clone() => xt_clone(self)
@done
}
impl Register<{1}> for {2} {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<{1}>) -> bool { t.items.len() < usize::MAX }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<{1}>, u: TS<{1}>) -> bool { u == op_register(t, Box::new(Any::{2}(self))) }
@fn lang::{0}|{2}|Register<{1}>|register nopub
@subst __lang_item_register :: => lang_reg_fn ::
@done
}
impl<'a> Register<{1}> for &'a {2} {
    #[verifier::prophetic]
    open spec fn rok(self, t: TS<{1}>) -> bool { t.items.len() < usize::MAX }
    #[verifier::prophetic]
    open spec fn regs(self, t: TS<{1}>, u: TS<{1}>) -> bool { u == op_register(t, Box::new(Any::{2}(*self))) }
@fn lang::{0}|&{2}|Register<{1}>|register nopub
@subst __lang_item_register :: => lang_reg_fn ::
@subst self.clone() => xt_clone(self)
@done
}
@endeach
impl Any {
/// writing the holder of an import writes that import
@fn lang::python|Any|LangItem<Python>|format -> r
@sig pub fn format(&self, out: &mut Formatter<'_>, config: &Config, format: &Format) -> (r: FResult)
    ensures (match *self { Any::Import(x) => x.writes(config, format, *old(out), *final(out), r), Any::ImportModule(x) => x.writes(config, format, *old(out), *final(out), r) })
@done
}
}

// ---- comments ----
pub mod commentm {
use super::*;
/// the text a line of a comment has once it is a string (Into<ItemStr>)
pub uninterp spec fn text_of<T>(t: T) -> Seq<char>;
/// core: into
#[verifier::external_body]
pub fn xt_into<T: Into<base::ItemStr>>(t: T) -> (r: base::ItemStr) ensures r@ == text_of(t) { unimplemented!() }
pub open spec fn word<L: Lang>(t: TS<L>, s: Seq<char>) -> TS<L> { op_item(t, Item::Literal(lit(s))) }
/// each line of lines on a line of its own, after a mark and a space
pub open spec fn marked<L: Lang, T>(t: TS<L>, mark: Seq<char>, lines: Seq<T>) -> TS<L> decreases lines.len() {
    if lines.len() == 0 { t } else { word(op_item(word(op_item(marked(t, mark, lines.drop_last()), Item::Push), mark), Item::Space), text_of(lines.last())) }
}
/// each line of lines after a star, and then the next line
pub open spec fn starred<L: Lang, T>(t: TS<L>, lines: Seq<T>) -> TS<L> decreases lines.len() {
    if lines.len() == 0 { t } else { op_item(word(op_item(word(op_item(starred(t, lines.drop_last()), Item::Space), "*"@), Item::Space), text_of(lines.last())), Item::Push) }
}
/// core: Peekable
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PeekIter<T> { _x: core::marker::PhantomData<T> }
impl<T> PeekIter<T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&T>)
        ensures final(self).rem() == old(self).rem(), old(self).rem().len() == 0 ==> r is None, old(self).rem().len() > 0 ==> r == Some(&old(self).rem()[0])
    { unimplemented!() }
}
#[verifier::external_body]
pub fn xt_peekable<I: Iterator>(it: I) -> (r: PeekIter<I::Item>) ensures r.rem() == vstd::std_specs::iter::IteratorSpec::remaining(&it) { unimplemented!() }
}
use commentm::*;
@each cs_block csharp::block_comment BlockComment Csharp csharp /// csharp block_comment; cs_line csharp::comment Comment Csharp csharp // csharp comment; dart_doc dart::doc_comment DocComment Dart dart /// dart doc_comment
pub mod {0} {
use super::*;
use super::{4}::{3};
broadcast use {stdm::axiom_into_iter, into::axiom_lit, into::axiom_lit_of};
@type lang::{1}::{2}
@fn lang::{6}|||{7} -> r
@sig pub fn mk_{7}<T>(comment: T) -> (r: {2}<T>)
    ensures r.0 == comment
@done
impl<T: IntoIterator> FormatInto<{3}> for {2}<T> where T::Item: Into<base::ItemStr> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<{3}>) -> bool { iter_ok(self.0) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<{3}>, u: TS<{3}>) -> bool { u == marked(t, "{5}"@, into_seq(self.0)) }
@fn lang::{1}|{2}<T>|FormatInto<{3}>|format_into nopub
@subst line.into() => xt_into(line)
@subst ItemStr :: Static => static_str
@start
    let ghost t0 = tokens.st();
    let ghost all = into_seq(self.0);
@loop 0 for line in self.0
    invariant it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.seq() == all, tokens.inv(), tokens.st() == marked(t0, "{5}"@, all.take(it0.index())),
@lstart 0
    broadcast use {into::axiom_lit, into::axiom_lit_of};
    proof { assert(all.take(it0.index() + 1).drop_last() =~= all.take(it0.index())); assert(all.take(it0.index() + 1).last() == all[it0.index()]); }
@end
    assert(all.take(all.len() as int) =~= all);
@done
}
}
@endeach
pub mod java_block {
use super::*;
use super::java::Java;
broadcast use {stdm::axiom_into_iter, into::axiom_lit, into::axiom_lit_of};
@type lang::java::block_comment::BlockComment
@fn lang::java|||block_comment -> r
@sig pub fn mk_block_comment<T>(comment: T) -> (r: BlockComment<T>)
    ensures r.0 == comment
@done
impl<T: IntoIterator> FormatInto<Java> for BlockComment<T> where T::Item: Into<base::ItemStr> {
    #[verifier::prophetic]
    open spec fn ok(self, t: TS<Java>) -> bool { iter_ok(self.0) }
    #[verifier::prophetic]
    open spec fn adds(self, t: TS<Java>, u: TS<Java>) -> bool {
        let all = into_seq(self.0);
        if all.len() == 0 { u == t } else { u == word(op_item(starred(op_item(word(op_item(t, Item::Push), "/**"@), Item::Push), all), Item::Space), "*/"@) }
    }
@fn lang::java::block_comment|BlockComment<T>|FormatInto<Java>|format_into nopub
@subst line.into() => xt_into(line)
@start
    let ghost t0 = op_item(word(op_item(tokens.st(), Item::Push), "/**"@), Item::Push);
    let ghost all = into_seq(self.0);
    let ghost mut n: int = 0;
@loop 0 ~ for line in it
    invariant_except_break 0 <= n <= all.len(), it0.rem() == all.skip(n), tokens.inv(), tokens.st() == starred(t0, all.take(n)), it0.rem().len() == 0 ==> all.take(n) =~= all,
    ensures tokens.inv(), tokens.st() == starred(t0, all),
    decreases it0.rem().len(),
@lstart 0
    broadcast use {into::axiom_lit, into::axiom_lit_of};
    proof { assert(all.take(n + 1).drop_last() =~= all.take(n)); assert(all.take(n + 1).last() == all[n]); assert(all.skip(n).skip(1) =~= all.skip(n + 1)); n = n + 1; }
@done
}
}
}
fn main() {}
