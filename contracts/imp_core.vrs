// ---- I: import headers. Types, sets, and what building a header does to its text ----
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::iter::*;
verus! {
global size_of usize == 8;
@include std_model.vrs
/// what a formatter is asked for: text (fmt: lemma_emit), or to format a whole stream (F01)
pub enum Ev { T(char), F(Doc, LangFormat) }
pub open spec fn evs(s: Seq<char>) -> Seq<Ev> { s.map_values(|c: char| Ev::T(c)) }
/// a file is its header and then the stream, formatted with the same state
pub open spec fn fmt_ev(t: Seq<Ev>, d: Doc, f: LangFormat) -> Seq<Ev> { t.push(Ev::F(d, f)) }
pub type FResult = Result<(), core::fmt::Error>;
#[verifier::external_body]
pub struct Formatter<'a> { _x: core::marker::PhantomData<&'a ()> }
impl<'a> Formatter<'a> {
    pub uninterp spec fn t(&self) -> Seq<Ev>;
    /// discharged in unit fmt (write_str)
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FResult)
        ensures r is Ok ==> final(self).t() == old(self).t() + evs(s@)
    { unimplemented!() }
    /// core: Write::write_char passes the character to write_str
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FResult)
        ensures r is Ok ==> final(self).t() == old(self).t() + evs(seq![c])
    { unimplemented!() }
}
pub mod xstrm {
use vstd::prelude::*;
pub trait Pat { spec fn pat(self) -> Seq<char>; }
impl Pat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl<'a> Pat for &'a str { open spec fn pat(self) -> Seq<char> { self@ } }
pub open spec fn has(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| at(s, p, i) }
pub open spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }
/// what follows the last occurrence of p
pub open spec fn after_last(s: Seq<char>, p: Seq<char>, r: Seq<char>) -> bool {
    if has(s, p) { exists|i: int| #[trigger] at(s, p, i) && r == s.skip(i + p.len()) && forall|j: int| #[trigger] at(s, p, j) ==> j <= i } else { r == s }
}
pub open spec fn before_first(s: Seq<char>, p: Seq<char>, r: Seq<char>) -> bool {
    if has(s, p) { exists|i: int| #[trigger] at(s, p, i) && r == s.take(i) && forall|j: int| #[trigger] at(s, p, j) ==> i <= j } else { r == s }
}
/// core: the first piece of rsplit / split, and whether there is another one
#[verifier::external_body]
pub struct Pieces<'a> { _x: core::marker::PhantomData<&'a ()> }
impl<'a> Pieces<'a> {
    pub uninterp spec fn of(&self) -> Option<(Seq<char>, Seq<char>, bool)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures final(self).of() is None,
            match old(self).of() { None => true, Some((s, p, back)) => r is Some && if back { after_last(s, p, r.unwrap()@) } else { before_first(s, p, r.unwrap()@) } }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures match self.of() { None => true, Some((s, p, back)) => p.len() > 0 ==> (r > 1) == has(s, p) }
    { unimplemented!() }
}
pub trait XStr {
    spec fn sv(&self) -> Seq<char>;
    fn x_rsplit<'a, P: Pat>(&'a self, p: P) -> (r: Pieces<'a>) ensures r.of() == Some((self.sv(), p.pat(), true));
    fn x_split<'a, P: Pat>(&'a self, p: P) -> (r: Pieces<'a>) ensures r.of() == Some((self.sv(), p.pat(), false));
    fn x_starts_with<P: Pat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_prefix_of(self.sv());
    fn x_ends_with<P: Pat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_suffix_of(self.sv());
    fn x_strip_prefix<'a, P: Pat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures r is Some == p.pat().is_prefix_of(self.sv()), r is Some ==> r.unwrap()@ == self.sv().skip(p.pat().len() as int);
}
impl XStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_rsplit<'a, P: Pat>(&'a self, p: P) -> (r: Pieces<'a>) { unimplemented!() }
    #[verifier::external_body]
    fn x_split<'a, P: Pat>(&'a self, p: P) -> (r: Pieces<'a>) { unimplemented!() }
    #[verifier::external_body]
    fn x_starts_with<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn x_ends_with<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn x_strip_prefix<'a, P: Pat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
}
/// alloc: String is compared with str by content
pub broadcast axiom fn axiom_string_eq1() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_eq2(x: &String, y: &str) ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(x, y) == (x@ == y@);
pub broadcast group group_string { axiom_string_eq1, axiom_string_eq2 }
}
use xstrm::*;
broadcast use {stdm::axiom_into_iter, setm::group_sets, xstrm::group_string};

// ---- format!(..) ----
pub struct FmtArgs { pub v: Ghost<Seq<char>> }
pub fn fmt_lit(s: &str) -> (r: FmtArgs) ensures r.v@ == s@ { FmtArgs { v: Ghost(s@) } }
/// core: Display of text is the text
pub fn fmt_display<T: setm::Key<K = Seq<char>>>(t: &T) -> (r: FmtArgs) ensures r.v@ == t.key() { FmtArgs { v: Ghost(t.key()) } }
pub fn fmt_cat(a: FmtArgs, b: FmtArgs) -> (r: FmtArgs) ensures r.v@ == a.v@ + b.v@ { FmtArgs { v: Ghost(a.v@ + b.v@) } }
#[verifier::external_body]
pub fn xt_format(a: FmtArgs) -> (r: String) ensures r@ == a.v@ { unimplemented!() }

@type tokens::item_str::ItemStr
impl ItemStr { pub open spec fn v(&self) -> Seq<char> { match self { ItemStr::Box(b) => (**b)@, ItemStr::Static(s) => (*s)@ } } }
impl AsRef<str> for ItemStr {
@fn tokens::item_str|ItemStr|AsRef<str>|as_ref -> r nopub
    ensures r@ == self.v(),
@done
}
impl core::ops::Deref for ItemStr {
type Target = str;
@fn tokens::item_str|ItemStr|Deref|deref -> r nopub
@sig fn deref(&self) -> (r: &str)
    ensures r@ == self.v(),
@done
}
/// alloc, core: text is compared by its characters
impl vstd::std_specs::cmp::PartialEqSpecImpl for ItemStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.v() == o.v() }
}
impl PartialEq for ItemStr {
@fn tokens::item_str|ItemStr|PartialEq|eq -> r nopub
    ensures r == (self.v() == other.v()),
@done
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a ItemStr> for ItemStr {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a ItemStr) -> Self { *v }
}
impl<'a> From<&'a ItemStr> for ItemStr {
@fn tokens::item_str|ItemStr|From<&ItemStr>|from -> r nopub
    ensures r == *value,
@done
}
impl Clone for ItemStr {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

pub mod setm {
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use super::stdm::*;
// ---- values that are compared and ordered by what they stand for ----
/// what keys may be looked up by (core::borrow::Borrow)
pub trait Bor<Q: ?Sized> {}
impl<T: ?Sized> Bor<T> for T {}
impl<'a, T: ?Sized> Bor<T> for &'a T {}
impl Bor<str> for String {}
pub trait Key { type K; spec fn key(&self) -> Self::K; }
impl Key for str { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl Key for String { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl Key for bool { type K = bool; open spec fn key(&self) -> bool { *self } }
impl<'a, T: Key + ?Sized> Key for &'a T { type K = T::K; open spec fn key(&self) -> T::K { (**self).key() } }
impl<T: Key> Key for Option<T> { type K = Option<T::K>; open spec fn key(&self) -> Option<T::K> { match self { Some(x) => Some(x.key()), None => None } } }
impl<A: Key, B: Key> Key for (A, B) { type K = (A::K, B::K); open spec fn key(&self) -> (A::K, B::K) { (self.0.key(), self.1.key()) } }

/// the order a sorted container holds its elements in
pub uninterp spec fn order<K>(s: Set<K>) -> Seq<K>;
/// alloc: each element once
pub broadcast axiom fn axiom_order<K>(s: Set<K>)
    ensures (#[trigger] order(s)).no_duplicates(), order(s).to_set() == s, order(s).len() == s.len();
/// core: tuples are ordered by their first element, and a string comes after its prefixes
pub axiom fn axiom_order_prefix(s: Set<(Seq<char>, Seq<char>)>)
    ensures forall|i: int, j: int| 0 <= i < j < order(s).len() && (#[trigger] order(s)[i]).0 != (#[trigger] order(s)[j]).0 ==> !order(s)[j].0.is_prefix_of(order(s)[i].0);
/// alloc: BTreeSet, for elements whose Ord agrees with what they stand for
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { _x: core::marker::PhantomData<T> }
impl<T: Key> BTreeSet<T> {
    pub uninterp spec fn s(&self) -> Set<T::K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() == Set::<T::K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self).s() == old(self).s().insert(t.key()), r == !old(self).s().contains(t.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: Key<K = T::K> + ?Sized>(&self, q: &Q) -> (r: bool) where T: Bor<Q> ensures r == self.s().contains(q.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.s() == Set::<T::K>::empty()), r == (order(self.s()).len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == order(self.s()).len() { unimplemented!() }
}
impl<T: Key> BTreeSet<T> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: SetIter<&T>) ensures keyed(r.rem(), order(self.s())) { unimplemented!() }
}
/// core: Peekable
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PeekIter<T> { _x: core::marker::PhantomData<T> }
impl<T> PeekIter<T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&T>)
        ensures final(self).rem() == old(self).rem(), old(self).rem().len() == 0 ==> r is None, old(self).rem().len() > 0 ==> r == Some(&old(self).rem()[0])
    { unimplemented!() }
}
pub trait XtPeek { type T; #[verifier::prophetic] spec fn items(&self) -> Seq<Self::T>; }
impl<T> XtPeek for SetIter<T> { type T = T; #[verifier::prophetic] open spec fn items(&self) -> Seq<T> { self.rem() } }
impl<T> XtPeek for std::vec::IntoIter<T> { type T = T; #[verifier::prophetic] open spec fn items(&self) -> Seq<T> { vstd::std_specs::iter::IteratorSpec::remaining(self) } }
#[verifier::external_body]
pub fn xt_peekable<I: XtPeek>(it: I) -> (r: PeekIter<I::T>) ensures r.rem() == it.items() { unimplemented!() }
impl<T: Key> Default for BTreeSet<T> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.s() == Set::<T::K>::empty() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SetIter<T> { _x: core::marker::PhantomData<T> }
impl<T> SetIter<T> { pub uninterp spec fn rem(&self) -> Seq<T>; }
impl<T> Iterator for SetIter<T> { type Item = T;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1)
    { unimplemented!() }
}
impl<T: Key> IntoIterator for BTreeSet<T> { type Item = T; type IntoIter = SetIter<T>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: SetIter<T>) ensures keyed(r.rem(), order(self.s())) { unimplemented!() }
}
impl<'a, T: Key> IntoIterator for &'a BTreeSet<T> { type Item = &'a T; type IntoIter = SetIter<&'a T>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: SetIter<&'a T>) { unimplemented!() }
}
/// alloc: BTreeMap, for keys whose Ord agrees with what they stand for
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<T, V> { _x: core::marker::PhantomData<(T, V)> }
impl<T: Key, V> BTreeMap<T, V> {
    pub uninterp spec fn m(&self) -> Map<T::K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<T::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(t.key(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: Key<K = T::K> + ?Sized>(&self, q: &Q) -> (r: bool) where T: Bor<Q> ensures r == self.m().dom().contains(q.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: Key<K = T::K> + ?Sized>(&self, q: &Q) -> (r: Option<&V>) where T: Bor<Q>
        ensures r is Some == self.m().dom().contains(q.key()), r is Some ==> *r.unwrap() == self.m()[q.key()] { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m().dom() == Set::<T::K>::empty()), r == (order(self.m().dom()).len() == 0) { unimplemented!() }
    /// entry(k).or_default()
    #[verifier::external_body]
    pub fn entry(&mut self, t: T) -> (r: Entry<'_, T, V>)
        ensures r.k() == t.key(), r.pre() == old(self).m(), final(self).m() == r.post() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, T, V> { _x: core::marker::PhantomData<(&'a T, V)> }
impl<'a, T: Key, V> Entry<'a, T, V> {
    pub uninterp spec fn k(&self) -> T::K;
    pub uninterp spec fn pre(&self) -> Map<T::K, V>;
    /// the map once the borrow of the entry is over
    pub uninterp spec fn post(&self) -> Map<T::K, V>;
}
impl<'a, T: Key, V> Entry<'a, T, V> {
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires f.requires(())
        ensures self.pre().dom().contains(self.k()) ==> *r == self.pre()[self.k()],
            !self.pre().dom().contains(self.k()) ==> f.ensures((), *r),
            self.post() == self.pre().insert(self.k(), *final(r)) { unimplemented!() }
}
impl<'a, T: Key, V: Default> Entry<'a, T, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V)
        ensures self.pre().dom().contains(self.k()) ==> *r == self.pre()[self.k()],
            !self.pre().dom().contains(self.k()) ==> call_ensures(V::default, (), *r),
            self.post() == self.pre().insert(self.k(), *final(r)) { unimplemented!() }
}
impl<T: Key, V> Default for BTreeMap<T, V> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.m() == Map::<T::K, V>::empty() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(V)]
pub struct MapIter<T, V> { _x: core::marker::PhantomData<(T, V)> }
impl<T, V> Iterator for MapIter<T, V> { type Item = (T, V);
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(T, V)>) { unimplemented!() }
}
impl<T: Key, V> IntoIterator for BTreeMap<T, V> { type Item = (T, V); type IntoIter = MapIter<T, V>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: MapIter<T, V>) { unimplemented!() }
}
pub open spec fn map_keyed<T: Key, V>(s: Seq<(T, V)>, m: Map<T::K, V>) -> bool {
    s.len() == order(m.dom()).len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.key() == order(m.dom())[i] && s[i].1 == m[order(m.dom())[i]]
}
/// alloc: iterating a map yields its entries in the order of their keys
pub broadcast axiom fn axiom_map_iter<T: Key, V>(b: BTreeMap<T, V>)
    ensures map_keyed(#[trigger] into_seq(b), b.m());
pub broadcast axiom fn axiom_map_iter_ok<T: Key, V>(b: BTreeMap<T, V>) ensures #[trigger] iter_ok(b);
pub open spec fn keyed<T: Key>(s: Seq<T>, k: Seq<T::K>) -> bool {
    s.len() == k.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).key() == k[i]
}
/// alloc: iterating a set yields its elements in its order
pub broadcast axiom fn axiom_set_iter<T: Key>(b: BTreeSet<T>)
    ensures keyed(#[trigger] into_seq(b), order(b.s()));
pub broadcast axiom fn axiom_set_iter_ref<T: Key>(b: &BTreeSet<T>)
    ensures keyed(#[trigger] into_seq(b), order(b.s()));
pub broadcast axiom fn axiom_set_iter_ok<T: Key>(b: BTreeSet<T>) ensures #[trigger] iter_ok(b);
pub broadcast axiom fn axiom_set_iter_ref_ok<T: Key>(b: &BTreeSet<T>) ensures #[trigger] iter_ok(b);
pub broadcast group group_sets { axiom_order, axiom_set_iter, axiom_set_iter_ref, axiom_set_iter_ok, axiom_set_iter_ref_ok, axiom_map_iter, axiom_map_iter_ok }
}
use setm::*;
impl Key for ItemStr { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self.v() } }

@include doc_core.vrs
/// a line of its own
pub open spec fn d_emit(d: Doc, l: Seq<Tk>) -> Doc { d_push(d_text(d_push(d), l)) }
pub open spec fn d_emits(d: Doc, ls: Seq<Seq<Tk>>) -> Doc decreases ls.len() {
    if ls.len() == 0 { d_push(d) } else { d_emit(d_emits(d, ls.drop_last()), ls.last()) }
}
/// a block of lines, and an empty line before whatever follows; nothing for no lines
pub open spec fn d_block(d: Doc, ls: Seq<Seq<Tk>>) -> Doc { if ls.len() == 0 { d } else { d_line(d_emits(d, ls)) } }

/// text at the end of the line so far, a space that is due included
pub open spec fn cur(d: Doc) -> Seq<Tk> { if d.sp { d.cur + sp() } else { d.cur } }
/// the lines before the one that text would start
pub open spec fn flushed(d: Doc) -> Seq<Seq<Tk>> { if d.cur.len() == 0 || d.pend == 0 { d.lines } else if d.pend < 2 { d.lines.push(d.cur) } else { d.lines.push(d.cur).push(Seq::empty()) } }
pub mod docm {
use super::*;
pub broadcast proof fn lemma_text_within(d: Doc, t: Seq<Tk>)
    requires within(d), t.len() > 0
    ensures #[trigger] d_text(d, t) == (Doc { lines: d.lines, cur: cur(d) + t, pend: 0, sp: false, ind: d.ind, base: d.ind, held: false })
{ assert(d_text(d, t).cur =~= cur(d) + t); }
pub broadcast proof fn lemma_text_first(d: Doc, t: Seq<Tk>)
    requires at_line(d), !d.sp, d.ind <= 0, t.len() > 0
    ensures #[trigger] d_text(d, t) == (Doc { lines: flushed(d), cur: t, pend: 0, sp: false, ind: d.ind, base: d.ind, held: false })
{ assert(d_text(d, t).cur =~= t); }
pub broadcast group group_text { lemma_text_within, lemma_text_first }
}

/// what was written is a line of its own
pub proof fn lemma_line(d0: Doc, l0: Seq<Seq<Tk>>, d1: Doc, u: Seq<Tk>, e: Doc)
    requires d_push(d1) == d_emits(d0, l0), d1.ind == 0, u.len() > 0, e.cur == u, e.ind == 0, e.pend == 0, !e.sp, e.base == 0, !e.held, e.lines == d_text(d_push(d1), u).lines,
    ensures d_push(e) == d_emits(d0, l0.push(u))
{
    assert(l0.push(u).drop_last() =~= l0); assert(l0.push(u).last() == u);
    let f = d_text(d_push(d1), u);
    assert(d_text(d_push(d_push(d1)), u) == f);
    assert(f.cur =~= u);
}

pub trait FormatInto: Sized {
    spec fn put(self, d: Doc) -> Doc;
    /// nothing but text comes first
    open spec fn starts(self) -> bool { true }
}
impl FormatInto for ItemStr { open spec fn put(self, d: Doc) -> Doc { d_text(d, chars(self.v())) } }
impl<'a> FormatInto for &'a ItemStr { open spec fn put(self, d: Doc) -> Doc { d_text(d, chars(self.v())) } }
impl<'a> FormatInto for &'a str { open spec fn put(self, d: Doc) -> Doc { d_text(d, chars(self@)) } }
impl FormatInto for String { open spec fn put(self, d: Doc) -> Doc { d_text(d, chars(self@)) } }
impl<'a> FormatInto for &'a String { open spec fn put(self, d: Doc) -> Doc { d_text(d, chars(self@)) } }
pub struct Quoted<T> { pub t: T }
/// the crate's quoted(): opening quote, escaped text, closing quote (see Q01-Q03)
pub fn quoted<T>(t: T) -> (r: Quoted<T>) ensures r.t == t { Quoted { t } }
impl<T: Key<K = Seq<char>>> FormatInto for Quoted<T> { open spec fn put(self, d: Doc) -> Doc { d_text(d, seq![Tk::Q(self.t.key())]) } }
impl<T: FormatInto> FormatInto for Option<T> { open spec fn put(self, d: Doc) -> Doc { match self { Some(x) => x.put(d), None => d } } open spec fn starts(self) -> bool { match self { Some(x) => x.starts(), None => true } } }
impl FormatInto for Tokens<Lng> { open spec fn put(self, d: Doc) -> Doc { d_add(d, self.d(), self.clean()) } open spec fn starts(self) -> bool { self.clean() } }
impl<'a> FormatInto for &'a Tokens<Lng> { open spec fn put(self, d: Doc) -> Doc { d_add(d, self.d(), self.clean()) } open spec fn starts(self) -> bool { self.clean() } }

pub struct Lng;
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct Tokens<L = Lng> { _x: core::marker::PhantomData<L> }
#[verifier::external_body]
pub struct Walk<'a> { _x: core::marker::PhantomData<&'a ()> }
impl<'a> Iterator for Walk<'a> { type Item = &'a LangItem;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a LangItem>) { unimplemented!() }
}
impl Tokens<Lng> {
    pub uninterp spec fn d(&self) -> Doc;
    /// nothing but text comes first
    pub uninterp spec fn clean(&self) -> bool;
    /// the imports of the stream, each once (T02)
    pub uninterp spec fn walk(&self) -> Seq<LangItem>;
    #[verifier::external_body]
    pub fn walk_imports(&self) -> (r: Walk<'_>)
        ensures iter_ok(r), into_seq(r).len() == self.walk().len(),
            forall|i: int| 0 <= i < self.walk().len() ==> *(#[trigger] into_seq(r)[i]) == self.walk()[i]
    { unimplemented!() }
    /// runs the formatter over the stream (F01); the language items in it are printed by their format function
    #[verifier::external_body]
    pub fn format(&self, out: &mut Formatter<'_>, config: &LangConfig, format: &LangFormat) -> (r: FResult)
        ensures r is Ok ==> final(out).t() == fmt_ev(old(out).t(), self.d(), *format)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.d() == d_empty(), r.clean() { unimplemented!() }
    #[verifier::external_body]
    pub fn append<T: FormatInto>(&mut self, t: T) ensures final(self).d() == t.put(old(self).d()), old(self).clean() && untouched(old(self).d()) && (old(self).d().cur.len() == 0 ==> t.starts()) ==> final(self).clean() { unimplemented!() }
    #[verifier::external_body]
    pub fn space(&mut self) ensures final(self).d() == d_space(old(self).d()), final(self).clean() == old(self).clean() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self) ensures final(self).d() == d_push(old(self).d()), final(self).clean() == old(self).clean() { unimplemented!() }
    #[verifier::external_body]
    pub fn line(&mut self) ensures final(self).d() == d_line(old(self).d()), final(self).clean() == old(self).clean() { unimplemented!() }
    #[verifier::external_body]
    pub fn indent(&mut self) ensures final(self).d() == d_indent(old(self).d(), 1), final(self).clean() == old(self).clean() { unimplemented!() }
    #[verifier::external_body]
    pub fn unindent(&mut self) ensures final(self).d() == d_indent(old(self).d(), -1), final(self).clean() == old(self).clean() { unimplemented!() }
}
/// the lines for the elements of a set, in the order of the set
pub open spec fn lines_of<K>(s: Set<K>, f: spec_fn(K) -> Seq<Tk>) -> Seq<Seq<Tk>> { order(s).map_values(f) }
pub proof fn lemma_emits_step(d: Doc, ls: Seq<Seq<Tk>>, i: int)
    requires 0 <= i < ls.len()
    ensures d_emits(d, ls.take(i + 1)) == d_emit(d_emits(d, ls.take(i)), ls[i])
{
    let t = ls.take(i + 1);
    assert(t.drop_last() =~= ls.take(i)); assert(t.last() == ls[i]);
}
/// each element has its line, exactly once, and there are no others
pub proof fn lemma_lines<K>(s: Set<K>, f: spec_fn(K) -> Seq<Tk>)
    requires forall|a: K, b: K| #[trigger] f(a) == #[trigger] f(b) ==> a == b
    ensures lines_of(s, f).no_duplicates(),
        forall|k: K| s.contains(k) ==> lines_of(s, f).contains(#[trigger] f(k)),
        forall|l: Seq<Tk>| #[trigger] lines_of(s, f).contains(l) ==> exists|k: K| s.contains(k) && #[trigger] f(k) == l,
{
    let o = order(s);
    assert forall|k: K| s.contains(k) implies lines_of(s, f).contains(#[trigger] f(k)) by {
        assert(o.to_set().contains(k));
        let i = choose|i: int| 0 <= i < o.len() && o[i] == k;
        assert(lines_of(s, f)[i] == f(k));
    }
    assert forall|l: Seq<Tk>| #[trigger] lines_of(s, f).contains(l) implies exists|k: K| s.contains(k) && #[trigger] f(k) == l by {
        let i = choose|i: int| 0 <= i < lines_of(s, f).len() && lines_of(s, f)[i] == l;
        assert(o.to_set().contains(o[i])); assert(s.contains(o[i]) && f(o[i]) == l);
    }
}

/// facts of imports, in a walk taken one import further
pub proof fn lemma_facts_step<A, K>(w: Seq<A>, f: spec_fn(A) -> K, i: int)
    requires 0 <= i < w.len()
    ensures w.take(i + 1).map_values(f).to_set() == w.take(i).map_values(f).to_set().insert(f(w[i]))
{
    let a = w.take(i + 1).map_values(f); let b = w.take(i).map_values(f);
    assert(a =~= b.push(f(w[i])));
    assert forall|k: K| a.to_set().contains(k) <==> #[trigger] b.to_set().insert(f(w[i])).contains(k) by {
        if b.contains(k) { let j = choose|j: int| 0 <= j < b.len() && b[j] == k; assert(a[j] == k); }
        if k == f(w[i]) { assert(a[i] == k); }
        if a.contains(k) && k != f(w[i]) { let j = choose|j: int| 0 <= j < a.len() && a[j] == k; assert(b[j] == k); }
    }
    assert(a.to_set() =~= b.to_set().insert(f(w[i])));
}

/// what imports say, once each, in the order of the set
pub open spec fn header<A, K>(w: Seq<A>, fact: spec_fn(A) -> K, line: spec_fn(K) -> Seq<Tk>) -> Seq<Seq<Tk>> { lines_of(w.map_values(fact).to_set(), line) }
/// a header has a line for everything its imports say, no two lines are the same, and there is no other line
pub proof fn theorem_header<A, K>(w: Seq<A>, fact: spec_fn(A) -> K, line: spec_fn(K) -> Seq<Tk>)
    requires forall|a: K, b: K| #[trigger] line(a) == #[trigger] line(b) ==> a == b
    ensures header(w, fact, line).no_duplicates(),
        forall|i: int| 0 <= i < w.len() ==> header(w, fact, line).contains(line(fact(#[trigger] w[i]))),
        forall|l: Seq<Tk>| #[trigger] header(w, fact, line).contains(l) ==> exists|i: int| 0 <= i < w.len() && line(fact(#[trigger] w[i])) == l,
{
    let fs = w.map_values(fact);
    lemma_lines(fs.to_set(), line);
    assert forall|i: int| 0 <= i < w.len() implies header(w, fact, line).contains(line(fact(#[trigger] w[i]))) by {
        assert(fs[i] == fact(w[i])); assert(fs.to_set().contains(fact(w[i])));
    }
    assert forall|l: Seq<Tk>| #[trigger] header(w, fact, line).contains(l) implies exists|i: int| 0 <= i < w.len() && line(fact(#[trigger] w[i])) == l by {
        let k = choose|k: K| fs.to_set().contains(k) && #[trigger] line(k) == l;
        let i = choose|i: int| 0 <= i < fs.len() && fs[i] == k;
        assert(fs[i] == fact(w[i]));
    }
}
/// the header does not depend on the order or the number of times things are imported
pub proof fn theorem_order<A, K>(w: Seq<A>, x: Seq<A>, fact: spec_fn(A) -> K, line: spec_fn(K) -> Seq<Tk>)
    requires w.to_set() == x.to_set()
    ensures header(w, fact, line) == header(x, fact, line)
{ lemma_facts_order(w, x, fact); }
pub proof fn lemma_facts_order<A, K>(w: Seq<A>, x: Seq<A>, fact: spec_fn(A) -> K)
    requires w.to_set() == x.to_set()
    ensures w.map_values(fact).to_set() == x.map_values(fact).to_set()
{
    assert forall|k: K| w.map_values(fact).to_set().contains(k) <==> #[trigger] x.map_values(fact).to_set().contains(k) by {
        let a = w.map_values(fact); let b = x.map_values(fact);
        if a.contains(k) { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(w.to_set().contains(w[i])); assert(x.to_set().contains(w[i])); let j = choose|j: int| 0 <= j < x.len() && x[j] == w[i]; assert(b[j] == k); }
        if b.contains(k) { let i = choose|i: int| 0 <= i < b.len() && b[i] == k; assert(x.to_set().contains(x[i])); assert(w.to_set().contains(x[i])); let j = choose|j: int| 0 <= j < w.len() && w[j] == x[i]; assert(a[j] == k); }
    }
    assert(w.map_values(fact).to_set() =~= x.map_values(fact).to_set());
}
pub proof fn lemma_chars_eq(a: Seq<char>, b: Seq<char>) requires chars(a) == chars(b) ensures a == b {
    assert(a.len() == chars(a).len() && b.len() == chars(b).len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(chars(a)[i] == Tk::C(a[i])); assert(chars(b)[i] == Tk::C(b[i])); }
    assert(a =~= b);
}

// ---- imports that say several things, or nothing ----
pub open spec fn said<A, K>(w: Seq<A>, says: spec_fn(A) -> Set<K>) -> Set<K> decreases w.len() {
    if w.len() == 0 { Set::empty() } else { said(w.drop_last(), says).union(says(w.last())) }
}
pub proof fn lemma_said_step<A, K>(w: Seq<A>, says: spec_fn(A) -> Set<K>, i: int)
    requires 0 <= i < w.len()
    ensures said(w.take(i + 1), says) == said(w.take(i), says).union(says(w[i]))
{
    assert(w.take(i + 1).drop_last() =~= w.take(i)); assert(w.take(i + 1).last() == w[i]);
}
pub proof fn lemma_said<A, K>(w: Seq<A>, says: spec_fn(A) -> Set<K>)
    ensures forall|k: K| #[trigger] said(w, says).contains(k) <==> exists|i: int| 0 <= i < w.len() && says(#[trigger] w[i]).contains(k)
    decreases w.len()
{
    if w.len() > 0 {
        let p = w.drop_last();
        lemma_said(p, says);
        assert forall|k: K| #[trigger] said(w, says).contains(k) <==> exists|i: int| 0 <= i < w.len() && says(#[trigger] w[i]).contains(k) by {
            if said(w, says).contains(k) {
                if says(w.last()).contains(k) { assert(says(w[w.len() - 1]).contains(k)); }
                else { assert(said(p, says).contains(k)); let i = choose|i: int| 0 <= i < p.len() && says(#[trigger] p[i]).contains(k); assert(w[i] == p[i]); }
            }
            if exists|i: int| 0 <= i < w.len() && says(#[trigger] w[i]).contains(k) {
                let i = choose|i: int| 0 <= i < w.len() && says(#[trigger] w[i]).contains(k);
                if i < p.len() { assert(p[i] == w[i]); assert(said(p, says).contains(k)); } else { assert(says(w.last()).contains(k)); }
            }
        }
    }
}
pub proof fn lemma_said_order<A, K>(w: Seq<A>, x: Seq<A>, says: spec_fn(A) -> Set<K>)
    requires w.to_set() == x.to_set()
    ensures said(w, says) == said(x, says)
{
    lemma_said(w, says); lemma_said(x, says);
    assert forall|k: K| said(w, says).contains(k) <==> #[trigger] said(x, says).contains(k) by {
        if said(w, says).contains(k) { let i = choose|i: int| 0 <= i < w.len() && says(#[trigger] w[i]).contains(k); assert(w.to_set().contains(w[i])); assert(x.to_set().contains(w[i])); let j = choose|j: int| 0 <= j < x.len() && x[j] == w[i]; assert(says(x[j]).contains(k)); }
        if said(x, says).contains(k) { let i = choose|i: int| 0 <= i < x.len() && says(#[trigger] x[i]).contains(k); assert(x.to_set().contains(x[i])); assert(w.to_set().contains(x[i])); let j = choose|j: int| 0 <= j < w.len() && w[j] == x[i]; assert(says(w[j]).contains(k)); }
    }
    assert(said(w, says) =~= said(x, says));
}
