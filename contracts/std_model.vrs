pub mod stdm {
use vstd::prelude::*;
use vstd::std_specs::iter::*;
// ---- trusted contracts on std (each is listed in the evidence) ----
/// the items an iterable yields, in order
pub uninterp spec fn into_seq<I: IntoIterator>(i: I) -> Seq<I::Item>;
/// core: Option yields its value once, or nothing
pub broadcast axiom fn axiom_into_seq_option<T>(o: Option<T>)
    ensures #[trigger] into_seq(o) == (match o { Some(x) => seq![x], None => Seq::<T>::empty() });
/// the iterable yields finitely many items and its iterator obeys the iterator laws
/// core: the (only) value of core::fmt::Error
#[verifier::external_body]
pub fn fmt_error() -> core::fmt::Error { core::fmt::Error }
pub uninterp spec fn iter_ok<I: IntoIterator>(i: I) -> bool;
pub broadcast axiom fn axiom_into_iter<I: IntoIterator>(i: I, r: I::IntoIter)
    requires #[trigger] call_ensures(I::into_iter, (i,), r), iter_ok(i)
    ensures r.obeys_prophetic_iter_laws(), r.remaining() == into_seq(i), r.will_return_none(), r.decrease() is Some;
/// core: Iterator::size_hint has no effect, and is right about what an iterator that obeys the
/// iterator laws yields: at least the lower bound, at most the upper
#[verifier::external_body]
pub fn size_hint_of<I: Iterator>(i: &I) -> (r: (usize, Option<usize>))
    ensures i.obeys_prophetic_iter_laws() ==> r.0 <= i.remaining().len()
        && (r.1 is Some ==> i.remaining().len() <= r.1->Some_0),
{ i.size_hint() }
/// room asked for ahead of the items: for no more of them than come (or than a small constant),
/// since asking for more than there can be ends the program
pub open spec fn room_ok(n: usize, come: nat) -> bool { n <= come || n <= 65536 }
/// alloc: Vec::extend appends every item, in order
pub assume_specification<T, A: std::alloc::Allocator, I: std::iter::IntoIterator<Item = T>> [<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend] (v: &mut std::vec::Vec<T, A>, i: I)
    ensures final(v)@ == old(v)@ + into_seq(i);
pub assume_specification<T> [core::mem::replace] (x: &mut T, y: T) -> (r: T)
    ensures r == *old(x), *final(x) == y;
pub assume_specification<T: Default> [core::mem::take] (x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(T::default, (), *final(x));
}
use stdm::*;
