// T05: strings, items, streams and imports are compared, ordered and hashed by what they are
use vstd::prelude::*;
use core::cmp::Ordering;
fn main() {}
verus! {
/// what a value is made of
pub enum Val {
    /// text
    Str(Seq<char>),
    /// a number, a flag, the number of a variant, and of what type
    Num(nat, int),
    /// the parts of a value
    Rec(Seq<Val>),
    /// the elements of a list
    List(Seq<Val>),
}
pub open spec fn text_ord(a: Seq<char>, b: Seq<char>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] == b[0] { text_ord(a.skip(1), b.skip(1)) }
    else if (a[0] as int) < (b[0] as int) { Ordering::Less } else { Ordering::Greater }
}
pub open spec fn num_ord(a: int, b: int) -> Ordering { if a == b { Ordering::Equal } else if a < b { Ordering::Less } else { Ordering::Greater } }
pub open spec fn tag(v: Val) -> int { match v { Val::Str(..) => 0, Val::Num(..) => 1, Val::Rec(..) => 2, Val::List(..) => 3 } }
/// the order: texts by their characters, numbers by their value, everything else part by part
pub open spec fn ord(a: Val, b: Val) -> Ordering decreases a {
    match (a, b) {
        (Val::Str(x), Val::Str(y)) => text_ord(x, y),
        (Val::Num(i, x), Val::Num(j, y)) => if i == j { num_ord(x, y) } else { num_ord(i as int, j as int) },
        (Val::Rec(x), Val::Rec(y)) => ords(x, y),
        (Val::List(x), Val::List(y)) => ords(x, y),
        _ => num_ord(tag(a), tag(b)),
    }
}
pub open spec fn ords(a: Seq<Val>, b: Seq<Val>) -> Ordering decreases a {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else { match ord(a[0], b[0]) { Ordering::Equal => ords(a.skip(1), b.skip(1)), o => o } }
}
/// what a hasher is after a text, a number
pub uninterp spec fn hash_text(h: int, s: Seq<char>) -> int;
pub uninterp spec fn hash_num(h: int, kind: nat, n: int) -> int;
/// what a hasher is after a value
pub open spec fn hashed(h: int, v: Val) -> int decreases v {
    match v {
        Val::Str(s) => hash_text(h, s),
        Val::Num(k, n) => hash_num(h, k, n),
        Val::Rec(s) => hasheds(h, s),
        Val::List(s) => hasheds(hash_num(h, 0, s.len() as int), s),
    }
}
pub open spec fn hasheds(h: int, s: Seq<Val>) -> int decreases s {
    if s.len() == 0 { h } else { hasheds(hashed(h, s[0]), s.skip(1)) }
}
pub open spec fn fields(h: int, s: Seq<Val>) -> bool {
    (s.len() == 1 ==> hasheds(h, s) == hashed(h, s[0]))
    && (s.len() == 2 ==> hasheds(h, s) == hashed(hashed(h, s[0]), s[1]))
    && (s.len() == 3 ==> hasheds(h, s) == hashed(hashed(hashed(h, s[0]), s[1]), s[2]))
    && (s.len() == 4 ==> hasheds(h, s) == hashed(hashed(hashed(hashed(h, s[0]), s[1]), s[2]), s[3]))
}
pub proof fn lemma_fields(h: int, s: Seq<Val>)
    ensures fields(h, s),
{ reveal_with_fuel(hasheds, 6); }
pub open spec fn parts(a: Seq<Val>, b: Seq<Val>) -> bool {
    (a.len() == 0 ==> ords(a, b) == Ordering::Equal)
    && (a.len() > 0 ==> ords(a, b) == (match ord(a[0], b[0]) { Ordering::Equal => ords(a.skip(1), b.skip(1)), o => o }))
    && (a.len() > 1 ==> ords(a.skip(1), b.skip(1)) == (match ord(a[1], b[1]) { Ordering::Equal => ords(a.skip(2), b.skip(2)), o => o }))
    && (a.len() > 2 ==> ords(a.skip(2), b.skip(2)) == (match ord(a[2], b[2]) { Ordering::Equal => ords(a.skip(3), b.skip(3)), o => o }))
    && (a.len() > 3 ==> ords(a.skip(3), b.skip(3)) == (match ord(a[3], b[3]) { Ordering::Equal => ords(a.skip(4), b.skip(4)), o => o }))
    && (a.len() == 1 ==> a.skip(1).len() == 0 && ords(a.skip(1), b.skip(1)) == Ordering::Equal)
    && (a.len() == 2 ==> a.skip(2).len() == 0 && ords(a.skip(2), b.skip(2)) == Ordering::Equal)
    && (a.len() == 3 ==> a.skip(3).len() == 0 && ords(a.skip(3), b.skip(3)) == Ordering::Equal)
    && (a.len() == 4 ==> a.skip(4).len() == 0 && ords(a.skip(4), b.skip(4)) == Ordering::Equal)
    && (a == b <==> (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i]))
}
pub proof fn lemma_parts(a: Seq<Val>, b: Seq<Val>)
    requires a.len() == b.len(), a.len() <= 4,
    ensures parts(a, b),
{
    if a.len() > 1 { assert(a.skip(1).skip(1) =~= a.skip(2)); assert(b.skip(1).skip(1) =~= b.skip(2)); }
    if a.len() > 2 { assert(a.skip(2).skip(1) =~= a.skip(3)); assert(b.skip(2).skip(1) =~= b.skip(3)); }
    if a.len() > 3 { assert(a.skip(3).skip(1) =~= a.skip(4)); assert(b.skip(3).skip(1) =~= b.skip(4)); }
    if forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i] { assert(a =~= b); }
}

pub proof fn hint(x: Val, y: Val)
    ensures x is Rec && y is Rec && x->Rec_0.len() == y->Rec_0.len() && x->Rec_0.len() <= 4 ==> parts(x->Rec_0, y->Rec_0),
{ if x is Rec && y is Rec && x->Rec_0.len() == y->Rec_0.len() && x->Rec_0.len() <= 4 { lemma_parts(x->Rec_0, y->Rec_0); } }
pub proof fn hint_hash(h: int, x: Val)
    ensures x is Rec ==> fields(h, x->Rec_0),
{ if x is Rec { lemma_fields(h, x->Rec_0); } }
pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub proof fn lemma_text(a: Seq<char>, b: Seq<char>)
    ensures (text_ord(a, b) == Ordering::Equal) == (a == b), text_ord(b, a) == flip(text_ord(a, b)),
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } }
    else if b.len() == 0 { }
    else if a[0] == b[0] {
        lemma_text(a.skip(1), b.skip(1));
        if a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    } else { assert(a[0] as int != b[0] as int); }
}
pub proof fn lemma_text_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires text_ord(a, b) != Ordering::Greater, text_ord(b, c) != Ordering::Greater,
    ensures text_ord(a, c) != Ordering::Greater,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        if a[0] == b[0] && b[0] == c[0] { lemma_text_trans(a.skip(1), b.skip(1), c.skip(1)); }
    }
}
/// equal in order means the same, and the order is the same from both sides
pub proof fn theorem_order(a: Val, b: Val)
    ensures (ord(a, b) == Ordering::Equal) == (a == b), ord(b, a) == flip(ord(a, b)),
    decreases a
{
    match (a, b) {
        (Val::Str(x), Val::Str(y)) => lemma_text(x, y),
        (Val::Rec(x), Val::Rec(y)) => lemma_orders(x, y),
        (Val::List(x), Val::List(y)) => lemma_orders(x, y),
        _ => {}
    }
}
pub proof fn lemma_orders(a: Seq<Val>, b: Seq<Val>)
    ensures (ords(a, b) == Ordering::Equal) == (a == b), ords(b, a) == flip(ords(a, b)),
    decreases a
{
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } }
    else if b.len() == 0 { }
    else {
        theorem_order(a[0], b[0]);
        lemma_orders(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    }
}
/// the order is transitive
pub proof fn theorem_transitive(a: Val, b: Val, c: Val)
    requires ord(a, b) != Ordering::Greater, ord(b, c) != Ordering::Greater,
    ensures ord(a, c) != Ordering::Greater,
    decreases a
{
    match (a, b, c) {
        (Val::Str(x), Val::Str(y), Val::Str(z)) => lemma_text_trans(x, y, z),
        (Val::Rec(x), Val::Rec(y), Val::Rec(z)) => lemma_transitives(x, y, z),
        (Val::List(x), Val::List(y), Val::List(z)) => lemma_transitives(x, y, z),
        _ => {}
    }
}
pub proof fn lemma_transitives(a: Seq<Val>, b: Seq<Val>, c: Seq<Val>)
    requires ords(a, b) != Ordering::Greater, ords(b, c) != Ordering::Greater,
    ensures ords(a, c) != Ordering::Greater,
    decreases a
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        theorem_order(a[0], b[0]); theorem_order(b[0], c[0]); theorem_order(a[0], c[0]);
        theorem_transitive(a[0], b[0], c[0]);
        if a[0] == b[0] && b[0] == c[0] { lemma_transitives(a.skip(1), b.skip(1), c.skip(1)); }
        else if a[0] == c[0] { assert(ord(b[0], a[0]) == flip(ord(a[0], b[0]))); }
    }
}
/// a hash says no more than what the value is
pub proof fn theorem_hash(h: int, a: Val, b: Val)
    requires ord(a, b) == Ordering::Equal,
    ensures hashed(h, a) == hashed(h, b),
{ theorem_order(a, b); }

/// core::hash::Hasher
#[verifier::external_body]
pub struct Hsh { _x: u8 }
impl Hsh { pub uninterp spec fn h(&self) -> int; }
/// PartialEq, PartialOrd, Ord and Hash, with what they have to say: the operators == and the calls
/// cmp, partial_cmp and hash in the code go through these (see extraction_rewrites, substitutions)
pub trait Cm {
    spec fn val(&self) -> Val;
    fn cm_eq(&self, other: &Self) -> (r: bool) ensures r == (self.val() == other.val());
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) ensures r == ord(self.val(), other.val());
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) ensures r == Some(ord(self.val(), other.val()));
    fn cm_hash(&self, state: &mut Hsh) ensures final(state).h() == hashed(old(state).h(), self.val());
}
/// Clone: the same again
pub trait Cl: Cm + Sized { fn cm_clone(&self) -> (r: Self) ensures r.val() == self.val(); }
pub open spec fn vals<T: Cm>(s: Seq<T>) -> Seq<Val> { s.map_values(|x: T| x.val()) }
/// core, alloc: what a reference, a box, a text, a number, a flag, an optional value and a list are compared by
@each &T <T:Cm+?Sized> ; Box<T> <T:Cm+?Sized>
impl{1} Cm for {0} {
    open spec fn val(&self) -> Val { (**self).val() }
    fn cm_eq(&self, other: &Self) -> (r: bool) { let r = T::cm_eq(&**self, &**other); assert(self.val() == (**self).val()); assert(other.val() == (**other).val()); r }
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { (**self).cm_cmp(&**other) }
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { (**self).cm_partial_cmp(&**other) }
    fn cm_hash(&self, state: &mut Hsh) { (**self).cm_hash(state) }
}
@endeach
/// core, alloc: str is compared and hashed by its bytes, whose order is that of its characters
impl Cm for str {
    open spec fn val(&self) -> Val { Val::Str(self@) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: numbers are compared and hashed by their value
impl Cm for usize {
    open spec fn val(&self) -> Val { Val::Num(0, *self as int) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: numbers are compared and hashed by their value
impl Cm for i16 {
    open spec fn val(&self) -> Val { Val::Num(1, *self as int) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: numbers are compared and hashed by their value
impl Cm for isize {
    open spec fn val(&self) -> Val { Val::Num(2, *self as int) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: false is less than true
impl Cm for bool {
    open spec fn val(&self) -> Val { Val::Num(3, if *self { 1 } else { 0 }) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: nothing is less than something
impl<T: Cm> Cm for Option<T> {
    open spec fn val(&self) -> Val { match self { None => Val::Rec(seq![Val::Num(2, 0)]), Some(x) => Val::Rec(seq![Val::Num(2, 1), x.val()]) } }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: slices are compared element by element, and hashed after their length
impl<T: Cm> Cm for [T] {
    open spec fn val(&self) -> Val { Val::List(vals(self@)) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: vectors are compared element by element, and hashed after their length
impl<T: Cm> Cm for Vec<T> {
    open spec fn val(&self) -> Val { Val::List(vals(self@)) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: tuples are compared and hashed element by element
impl<A: Cm, B: Cm> Cm for (A, B) {
    open spec fn val(&self) -> Val { Val::Rec(seq![self.0.val(), self.1.val()]) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: tuples are compared and hashed element by element
impl<A: Cm, B: Cm, C: Cm> Cm for (A, B, C) {
    open spec fn val(&self) -> Val { Val::Rec(seq![self.0.val(), self.1.val(), self.2.val()]) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: tuples are compared and hashed element by element
impl<A: Cm, B: Cm, C: Cm, D: Cm> Cm for (A, B, C, D) {
    open spec fn val(&self) -> Val { Val::Rec(seq![self.0.val(), self.1.val(), self.2.val(), self.3.val()]) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: the first that is not equal
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == if a == Ordering::Equal { b } else { a };
/// relative_path: paths are compared and hashed by their components
#[verifier::external_body]
pub struct RelativePathBuf { _x: u8 }
pub uninterp spec fn path_val(p: &RelativePathBuf) -> Val;
/// core, alloc: paths are compared and hashed by their components
impl Cm for RelativePathBuf {
    open spec fn val(&self) -> Val { path_val(self) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
/// core, alloc: a clone has the value of what it is made of
impl<T: Cm + ?Sized> Cl for &'static T {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: Cl> Cl for Box<T> {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}
impl Cl for Box<str> {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}
impl Cl for usize {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}
impl Cl for i16 {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}
impl Cl for isize {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}
impl Cl for bool {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: Cl> Cl for Option<T> {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: Cl> Cl for Vec<T> {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}
impl Cl for RelativePathBuf {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}
/// the number of a variant
pub trait Disc { spec fn disc(&self) -> int; }
/// rustc: the variants are numbered in order
#[verifier::external_body]
pub fn discriminant_value<T: Disc>(x: &T) -> (r: isize) ensures r == x.disc() { unimplemented!() }
/// the derived comparisons say that this is never reached
#[verifier::external_body]
pub fn unreachable() -> (r: bool) requires false { unimplemented!() }

@type tokens::item_str::ItemStr
impl ItemStr { pub open spec fn v(&self) -> Seq<char> { match self { ItemStr::Box(b) => (**b)@, ItemStr::Static(s) => (*s)@ } } }
impl AsRef<str> for ItemStr {
@fn tokens::item_str|ItemStr|AsRef<str>|as_ref -> r nopub noend
    ensures r@ == self.v(),
@done
}
impl core::ops::Deref for ItemStr {
type Target = str;
@fn tokens::item_str|ItemStr|Deref|deref -> r nopub noend
@sig fn deref(&self) -> (r: &str)
    ensures r@ == self.v(),
@done
}
/// text is its characters, however it is stored
impl Cm for ItemStr {
    open spec fn val(&self) -> Val { Val::Str(self.v()) }
@fn tokens::item_str|ItemStr|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn tokens::item_str|ItemStr|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn tokens::item_str|ItemStr|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn tokens::item_str|ItemStr|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for ItemStr {
@fn tokens::item_str|ItemStr|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
pub trait Lang: Sized { type Item: Cm + Cl; }
@type tokens::item::Item
impl<L: Lang> Disc for Item<L> {
    open spec fn disc(&self) -> int { match self { Item::Literal(..) => 0, Item::Lang(..) => 1, Item::Register(..) => 2, Item::Push => 3, Item::Line => 4, Item::Space => 5,
        Item::Indentation(..) => 6, Item::OpenQuote(..) => 7, Item::CloseQuote => 8, Item::OpenEval => 9, Item::CloseEval => 10 } }
}
impl<L: Lang> Cm for Item<L> {
    open spec fn val(&self) -> Val { let d = Val::Num(2, self.disc()); match self {
        Item::Literal(s) => Val::Rec(seq![d, s.val()]),
        Item::Lang(p, i) => Val::Rec(seq![d, p.val(), i.val()]),
        Item::Register(p, i) => Val::Rec(seq![d, p.val(), i.val()]),
        Item::Indentation(n) => Val::Rec(seq![d, n.val()]),
        Item::OpenQuote(e) => Val::Rec(seq![d, e.val()]),
        _ => Val::Rec(seq![d]),
    } }
@fn tokens::item|Item<L>|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn tokens::item|Item<L>|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn tokens::item|Item<L>|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn tokens::item|Item<L>|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl<L: Lang> Cl for Item<L> {
@fn tokens::item|Item<L>|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@type tokens::tokens::Tokens
impl<L: Lang> Cm for Tokens<L> {
    open spec fn val(&self) -> Val { Val::Rec(seq![self.items.val(), self.last_lang_item.val()]) }
@fn tokens::tokens|Tokens<L>|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn tokens::tokens|Tokens<L>|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn tokens::tokens|Tokens<L>|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn tokens::tokens|Tokens<L>|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl<L: Lang> Cl for Tokens<L> {
@fn tokens::tokens|Tokens<L>|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
/// a stream and a list or slice of items, from either side
@each Tokens<L> Vec<Item<L>> Tv self.items.val()==other.val() ; Vec<Item<L>> Tokens<L> Vt self.val()==other.items.val() ; Tokens<L> [Item<L>] Ts self.items.val()==other.val() ; [Item<L>] Tokens<L> St self.val()==other.items.val()
pub trait CmWith{2}<O: ?Sized> { spec fn same(&self, other: &O) -> bool; fn cm_eq_with(&self, other: &O) -> (r: bool) ensures r == self.same(other); }
impl<L: Lang> CmWith{2}<{1}> for {0} {
    open spec fn same(&self, other: &{1}) -> bool { {3} }
@fn tokens::tokens|{0}|PartialEq<{1}>|eq -> r as cm_eq_with nopub compared
@done
}
@endeach

@each c Import 3 self.path.val(),self.item.val(),self.system.val() ; csharp Import 3 self.namespace.val(),self.name.val(),self.qualified.val() ; dart Import 3 self.path.val(),self.name.val(),self.alias.val() ; go Import 2 self.module.val(),self.name.val() ; java Import 2 self.package.val(),self.name.val() ; swift Import 2 self.module.val(),self.name.val()
pub mod {0} {
use super::*;
@type lang::{0}::{1}
impl Cm for {1} {
    open spec fn val(&self) -> Val { Val::Rec(seq![{3}]) }
@fn lang::{0}|{1}|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::{0}|{1}|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::{0}|{1}|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::{0}|{1}|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for {1} {
@fn lang::{0}|{1}|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@type lang::{0}::Any
impl Cm for Any {
    open spec fn val(&self) -> Val { match self { Any::Import(x) => Val::Rec(seq![x.val()]) } }
@fn lang::{0}|Any|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::{0}|Any|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::{0}|Any|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::{0}|Any|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for Any {
@fn lang::{0}|Any|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
}
@endeach
pub mod js {
use super::*;
@type lang::js::ImportKind
/// derived: a field-less enum is copied
impl Copy for ImportKind {}
impl Clone for ImportKind {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl Disc for ImportKind { open spec fn disc(&self) -> int { match self { ImportKind::Named => 0, ImportKind::Default => 1, ImportKind::Wildcard => 2 } } }
impl Cm for ImportKind {
    open spec fn val(&self) -> Val { Val::Rec(seq![Val::Num(2, self.disc())]) }
@fn lang::js|ImportKind|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|ImportKind|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|ImportKind|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|ImportKind|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for ImportKind {
@fn lang::js|ImportKind|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@type lang::js::Module
impl Disc for Module { open spec fn disc(&self) -> int { match self { Module::Path(..) => 0, Module::Global(..) => 1 } } }
impl Cm for Module {
    open spec fn val(&self) -> Val { let d = Val::Num(2, self.disc()); match self { Module::Path(p) => Val::Rec(seq![d, p.val()]), Module::Global(g) => Val::Rec(seq![d, g.val()]) } }
@fn lang::js|Module|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|Module|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|Module|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|Module|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for Module {
@fn lang::js|Module|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@type lang::js::Import
impl Cm for Import {
    open spec fn val(&self) -> Val { Val::Rec(seq![self.kind.val(), self.module.val(), self.name.val(), self.alias.val()]) }
@fn lang::js|Import|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|Import|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|Import|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|Import|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for Import {
@fn lang::js|Import|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@type lang::js::Any
impl Cm for Any {
    open spec fn val(&self) -> Val { match self { Any::Import(x) => Val::Rec(seq![x.val()]) } }
@fn lang::js|Any|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|Any|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|Any|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::js|Any|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for Any {
@fn lang::js|Any|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
}
pub mod nix {
use super::*;
/// the stream of a variable: compared as every stream is
#[verifier::external_body]
pub struct Tokens { _x: u8 }
pub uninterp spec fn stream_val(t: &Tokens) -> Val;
/// the stream of a variable is compared as every stream is (above)
impl Cm for Tokens {
    open spec fn val(&self) -> Val { stream_val(self) }
    #[verifier::external_body]
    fn cm_eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn cm_cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body]
    fn cm_partial_cmp(&self, other: &Self) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body]
    fn cm_hash(&self, state: &mut Hsh) { unimplemented!() }
}
impl Cl for Tokens {
    #[verifier::external_body]
    fn cm_clone(&self) -> (r: Self) { unimplemented!() }
}

@each ImportArgument self.0.val() ; ImportInherit self.path.val(),self.name.val() ; ImportVariable self.name.val(),self.value.val() ; ImportWith self.argument.val(),self.name.val()
@type lang::nix::{0}
impl Cm for {0} {
    open spec fn val(&self) -> Val { Val::Rec(seq![{1}]) }
@fn lang::nix|{0}|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::nix|{0}|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::nix|{0}|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::nix|{0}|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for {0} {
@fn lang::nix|{0}|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@endeach
@type lang::nix::Import
impl Disc for Import { open spec fn disc(&self) -> int { match self { Import::Argument(..) => 0, Import::Inherit(..) => 1, Import::Variable(..) => 2, Import::With(..) => 3 } } }
impl Cm for Import {
    open spec fn val(&self) -> Val { let d = Val::Num(2, self.disc()); match self {
        Import::Argument(x) => Val::Rec(seq![d, x.val()]), Import::Inherit(x) => Val::Rec(seq![d, x.val()]), Import::Variable(x) => Val::Rec(seq![d, x.val()]), Import::With(x) => Val::Rec(seq![d, x.val()]) } }
@fn lang::nix|Import|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::nix|Import|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::nix|Import|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::nix|Import|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for Import {
@fn lang::nix|Import|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@type lang::nix::Any
impl Cm for Any {
    open spec fn val(&self) -> Val { match self { Any::Import(x) => Val::Rec(seq![x.val()]) } }
@fn lang::nix|Any|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::nix|Any|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::nix|Any|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::nix|Any|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for Any {
@fn lang::nix|Any|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
}
pub mod python {
use super::*;
@type lang::python::TypeModule
impl Disc for TypeModule { open spec fn disc(&self) -> int { match self { TypeModule::Unqualified { .. } => 0, TypeModule::Qualified { .. } => 1 } } }
impl Cm for TypeModule {
    open spec fn val(&self) -> Val { let d = Val::Num(2, self.disc()); match self { TypeModule::Unqualified { module } => Val::Rec(seq![d, module.val()]), TypeModule::Qualified { module, alias } => Val::Rec(seq![d, module.val(), alias.val()]) } }
@fn lang::python|TypeModule|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::python|TypeModule|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::python|TypeModule|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::python|TypeModule|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for TypeModule {
@fn lang::python|TypeModule|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@each Import self.module.val(),self.name.val(),self.alias.val() ; ImportModule self.module.val(),self.alias.val()
@type lang::python::{0}
impl Cm for {0} {
    open spec fn val(&self) -> Val { Val::Rec(seq![{1}]) }
@fn lang::python|{0}|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::python|{0}|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::python|{0}|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::python|{0}|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for {0} {
@fn lang::python|{0}|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@endeach
@type lang::python::Any
impl Disc for Any { open spec fn disc(&self) -> int { match self { Any::Import(..) => 0, Any::ImportModule(..) => 1 } } }
impl Cm for Any {
    open spec fn val(&self) -> Val { let d = Val::Num(2, self.disc()); match self { Any::Import(x) => Val::Rec(seq![d, x.val()]), Any::ImportModule(x) => Val::Rec(seq![d, x.val()]) } }
@fn lang::python|Any|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::python|Any|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::python|Any|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::python|Any|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for Any {
@fn lang::python|Any|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
}
pub mod rust {
use super::*;
@type lang::rust::ImportMode
/// derived: a field-less enum is copied
impl Copy for ImportMode {}
impl Clone for ImportMode {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl Disc for ImportMode { open spec fn disc(&self) -> int { match self { ImportMode::Direct => 0, ImportMode::Qualified => 1 } } }
impl Cm for ImportMode {
    open spec fn val(&self) -> Val { Val::Rec(seq![Val::Num(2, self.disc())]) }
@fn lang::rust|ImportMode|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|ImportMode|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|ImportMode|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|ImportMode|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for ImportMode {
@fn lang::rust|ImportMode|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@type lang::rust::Module
impl Disc for Module { open spec fn disc(&self) -> int { match self { Module::Module { .. } => 0, Module::Aliased { .. } => 1 } } }
impl Cm for Module {
    open spec fn val(&self) -> Val { let d = Val::Num(2, self.disc()); match self { Module::Module { import, module } => Val::Rec(seq![d, import.val(), module.val()]), Module::Aliased { module, alias } => Val::Rec(seq![d, module.val(), alias.val()]) } }
@fn lang::rust|Module|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|Module|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|Module|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|Module|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for Module {
@fn lang::rust|Module|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@type lang::rust::Import
impl Cm for Import {
    open spec fn val(&self) -> Val { Val::Rec(seq![self.module.val(), self.name.val(), self.alias.val()]) }
@fn lang::rust|Import|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|Import|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|Import|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|Import|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for Import {
@fn lang::rust|Import|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
@type lang::rust::Any
impl Cm for Any {
    open spec fn val(&self) -> Val { match self { Any::Import(x) => Val::Rec(seq![x.val()]) } }
@fn lang::rust|Any|PartialEq|eq -> r as cm_eq nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|Any|Ord|cmp -> r as cm_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|Any|PartialOrd|partial_cmp -> r as cm_partial_cmp nopub compared
@start
    proof { hint(self.val(), other.val()); }
@subst PartialOrd::partial_cmp( => Cm::cm_partial_cmp(
@subst .partial_cmp( => .cm_partial_cmp(
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
@fn lang::rust|Any|Hash|hash -> r as cm_hash nopub compared
@sig fn cm_hash(&self, state: &mut Hsh)
@start
    proof { hint_hash(state.h(), self.val()); }
@subst Ord::cmp( => Cm::cm_cmp(
@subst .cmp( => .cm_cmp(
@subst Hash::hash( => Cm::cm_hash(
@subst .hash( => .cm_hash(
@done
}
impl Cl for Any {
@fn lang::rust|Any|Clone|clone -> r as cm_clone nopub
@start
    proof { hint(self.val(), self.val()); }
@subst Clone::clone( => Cl::cm_clone(
@subst .clone( => .cm_clone(
@done
}
}
}
