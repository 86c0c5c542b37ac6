// ---- token streams: what the operations do ----
pub open spec fn strip_sp<L: Lang>(s: Seq<Item<L>>) -> Seq<Item<L>> decreases s.len() {
    if s.len() > 0 && (s.last() is Space || s.last() is Push) { strip_sp(s.drop_last()) } else { s }
}
pub open spec fn strip_lp<L: Lang>(s: Seq<Item<L>>) -> Seq<Item<L>> decreases s.len() {
    if s.len() > 0 && (s.last() is Line || s.last() is Push) { strip_lp(s.drop_last()) } else { s }
}
/// the stream without its trailing whitespace and indentation changes
pub open spec fn strip_wi<L: Lang>(s: Seq<Item<L>>) -> Seq<Item<L>> decreases s.len() {
    if s.len() > 0 && (s.last() is Line || s.last() is Push || s.last() is Space || s.last() is Indentation) { strip_wi(s.drop_last()) } else { s }
}
/// the indentation changes in that trailing part, summed, plus n
pub open spec fn sum_wi<L: Lang>(s: Seq<Item<L>>, n: int) -> int decreases s.len() {
    if s.len() == 0 { n }
    else if s.last() is Indentation { sum_wi(s.drop_last(), n + s.last()->Indentation_0) }
    else if s.last() is Line || s.last() is Push || s.last() is Space { sum_wi(s.drop_last(), n) }
    else { n }
}
pub open spec fn fits(n: int) -> bool { i16::MIN <= n <= i16::MAX }
/// every partial sum fits in the indentation counter
pub open spec fn fits_wi<L: Lang>(s: Seq<Item<L>>, n: int) -> bool decreases s.len() {
    &&& fits(n)
    &&& (s.len() > 0 ==> {
        if s.last() is Indentation { fits_wi(s.drop_last(), n + s.last()->Indentation_0) }
        else if s.last() is Line || s.last() is Push || s.last() is Space { fits_wi(s.drop_last(), n) }
        else { true } })
}
pub open spec fn op_space<L: Lang>(s: Seq<Item<L>>) -> Seq<Item<L>> {
    if s.len() > 0 && s.last() is Space { s } else { s.push(Item::Space) }
}
pub open spec fn op_push<L: Lang>(s: Seq<Item<L>>) -> Seq<Item<L>> {
    let t = strip_sp(s);
    if t.len() > 0 && t.last() is Line { t } else { t.push(Item::Push) }
}
pub open spec fn op_line<L: Lang>(s: Seq<Item<L>>) -> Seq<Item<L>> { strip_lp(s).push(Item::Line) }
pub open spec fn op_indentation<L: Lang>(s: Seq<Item<L>>, n: int) -> Seq<Item<L>> {
    let m = sum_wi(s, n);
    if m == 0 { strip_wi(s) } else { strip_wi(s).push(Item::Indentation(m as i16)) }
}
pub open spec fn is_ws<L: Lang>(i: Item<L>) -> bool { i is Space || i is Push || i is Line }
pub open spec fn is_lang<L: Lang>(i: Item<L>) -> bool { i is Lang || i is Register }
pub open spec fn lang_prev<L: Lang>(i: Item<L>) -> nat { match i { Item::Lang(p, _) => p as nat, Item::Register(p, _) => p as nat, _ => 0 } }
pub open spec fn lang_val<L: Lang>(i: Item<L>) -> L::Item { match i { Item::Lang(_, x) => *x, Item::Register(_, x) => *x, _ => arbitrary() } }

// ---- T01: the normal form of a stream ----
/// items a, b may stand next to each other
pub open spec fn pair_ok<L: Lang>(a: Item<L>, b: Item<L>) -> bool {
    &&& !(a is Space && b is Space)
    &&& !(b is Push && is_ws(a))
    &&& !(b is Line && (a is Line || a is Push))
    &&& !(b is Indentation && (is_ws(a) || a is Indentation))
}
pub open spec fn nf<L: Lang>(s: Seq<Item<L>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Indentation && s[i]->Indentation_0 == 0)
    &&& forall|i: int| 0 < i < s.len() ==> pair_ok(s[i - 1], #[trigger] s[i])
}

// ---- T02: the chain of language items ----
/// 1 + the index of the last language item (0: none)
pub open spec fn last_lang<L: Lang>(s: Seq<Item<L>>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if is_lang(s.last()) { s.len() } else { last_lang(s.drop_last()) }
}
/// every language item points at the one before it
pub open spec fn chain_wf<L: Lang>(s: Seq<Item<L>>) -> bool {
    forall|i: int| 0 <= i < s.len() && is_lang(s[i]) ==> lang_prev(#[trigger] s[i]) == last_lang(s.take(i))
}
/// what following the chain from position pos yields
pub open spec fn walk<L: Lang>(s: Seq<Item<L>>, pos: nat) -> Seq<L::Item> decreases pos {
    if pos == 0 || pos > s.len() || !is_lang(s[pos - 1]) || lang_prev(s[pos - 1]) >= pos { Seq::empty() }
    else { seq![lang_val(s[pos - 1])] + walk(s, lang_prev(s[pos - 1])) }
}
/// the values of all language items, last one first
pub open spec fn imports_rev<L: Lang>(s: Seq<Item<L>>) -> Seq<L::Item> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if is_lang(s.last()) { seq![lang_val(s.last())] + imports_rev(s.drop_last()) }
    else { imports_rev(s.drop_last()) }
}

pub struct TS<L: Lang> { pub items: Seq<Item<L>>, pub last: nat }
pub open spec fn st_ws<L: Lang>(t: TS<L>, s: Seq<Item<L>>) -> TS<L> { TS { items: s, last: t.last } }
pub open spec fn inv<L: Lang>(t: TS<L>) -> bool { nf(t.items) && chain_wf(t.items) && t.last == last_lang(t.items) }
impl<L: Lang> Tokens<L> {
    pub open spec fn st(&self) -> TS<L> { TS { items: self.items@, last: self.last_lang_item as nat } }
    pub open spec fn inv(&self) -> bool { inv(self.st()) }
}
pub open spec fn op_lang<L: Lang>(t: TS<L>, x: Box<L::Item>) -> TS<L> {
    TS { items: t.items.push(Item::Lang(t.last as usize, x)), last: t.items.len() + 1 }
}
pub open spec fn op_register<L: Lang>(t: TS<L>, x: Box<L::Item>) -> TS<L> {
    TS { items: t.items.push(Item::Register(t.last as usize, x)), last: t.items.len() + 1 }
}
/// the effect of one item appended to a stream
pub open spec fn op_item<L: Lang>(t: TS<L>, i: Item<L>) -> TS<L> {
    match i {
        Item::Push => st_ws(t, op_push(t.items)),
        Item::Line => st_ws(t, op_line(t.items)),
        Item::Space => st_ws(t, op_space(t.items)),
        Item::Indentation(n) => st_ws(t, op_indentation(t.items, n as int)),
        Item::Lang(_, x) => op_lang(t, x),
        Item::Register(_, x) => op_register(t, x),
        other => st_ws(t, t.items.push(other)),
    }
}
pub open spec fn item_fits<L: Lang>(t: TS<L>, i: Item<L>) -> bool {
    match i {
        Item::Indentation(n) => fits_wi(t.items, n as int),
        Item::Lang(_, _) | Item::Register(_, _) => t.items.len() < usize::MAX,
        _ => true,
    }
}
// ---- lemmas ----
pub proof fn lemma_last_lang<L: Lang>(s: Seq<Item<L>>)
    ensures last_lang(s) <= s.len(), last_lang(s) > 0 ==> is_lang(s[last_lang(s) - 1]),
        forall|i: int| last_lang(s) <= i < s.len() ==> !is_lang(#[trigger] s[i]),
    decreases s.len()
{
    if s.len() > 0 && !is_lang(s.last()) { lemma_last_lang(s.drop_last()); 
        assert(forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] == s.drop_last()[i]);
    }
}
/// dropping or adding non-language items at the end changes neither the chain nor its head
pub proof fn lemma_chain_prefix<L: Lang>(s: Seq<Item<L>>, n: int)
    requires 0 <= n <= s.len(), chain_wf(s), forall|i: int| n <= i < s.len() ==> !is_lang(#[trigger] s[i]),
    ensures chain_wf(s.take(n)), last_lang(s.take(n)) == last_lang(s),
    decreases s.len() - n
{
    let t = s.take(n);
    assert forall|i: int| 0 <= i < t.len() && is_lang(t[i]) implies lang_prev(#[trigger] t[i]) == last_lang(t.take(i)) by {
        assert(t.take(i) =~= s.take(i)); assert(t[i] == s[i]);
    }
    if n < s.len() {
        let d = s.drop_last();
        assert(chain_wf(d)) by {
            assert forall|i: int| 0 <= i < d.len() && is_lang(d[i]) implies lang_prev(#[trigger] d[i]) == last_lang(d.take(i)) by {
                assert(d.take(i) =~= s.take(i)); assert(d[i] == s[i]);
            }
        }
        lemma_chain_prefix(d, n);
        assert(d.take(n) =~= s.take(n));
        assert(!is_lang(s[s.len() - 1]));
    } else { assert(t =~= s); }
}
pub proof fn lemma_chain_push<L: Lang>(s: Seq<Item<L>>, x: Item<L>)
    requires chain_wf(s), is_lang(x) ==> lang_prev(x) == last_lang(s),
    ensures chain_wf(s.push(x)), last_lang(s.push(x)) == if is_lang(x) { s.len() + 1 } else { last_lang(s) },
{
    let t = s.push(x);
    assert(t.drop_last() =~= s);
    assert forall|i: int| 0 <= i < t.len() && is_lang(t[i]) implies lang_prev(#[trigger] t[i]) == last_lang(t.take(i)) by {
        if i < s.len() { assert(t.take(i) =~= s.take(i)); assert(t[i] == s[i]); } else { assert(t.take(i) =~= s); }
    }
}
pub proof fn lemma_nf_prefix<L: Lang>(s: Seq<Item<L>>, n: int)
    requires 0 <= n <= s.len(), nf(s), ensures nf(s.take(n)),
{
    let t = s.take(n);
    assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
}
pub proof fn lemma_strip<L: Lang>(s: Seq<Item<L>>, n: int)
    ensures
        ({ let k = strip_sp(s).len(); k <= s.len() && strip_sp(s) == s.take(k as int) && (forall|i: int| k <= i < s.len() ==> !is_lang(#[trigger] s[i])) && (k > 0 ==> !(strip_sp(s).last() is Space) && !(strip_sp(s).last() is Push)) }),
        ({ let k = strip_lp(s).len(); k <= s.len() && strip_lp(s) == s.take(k as int) && (forall|i: int| k <= i < s.len() ==> !is_lang(#[trigger] s[i])) && (k > 0 ==> !(strip_lp(s).last() is Line) && !(strip_lp(s).last() is Push)) }),
        ({ let k = strip_wi(s).len(); k <= s.len() && strip_wi(s) == s.take(k as int) && (forall|i: int| k <= i < s.len() ==> !is_lang(#[trigger] s[i])) && (k > 0 ==> !is_ws(strip_wi(s).last()) && !(strip_wi(s).last() is Indentation)) }),
        fits_wi(s, n) ==> fits(sum_wi(s, n)),
    decreases s.len()
{
    assert(s.take(s.len() as int) =~= s);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_strip(d, n);
        assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] s[i] == d[i]);
        assert(d.take(strip_sp(d).len() as int) =~= s.take(strip_sp(d).len() as int));
        assert(d.take(strip_lp(d).len() as int) =~= s.take(strip_lp(d).len() as int));
        assert(d.take(strip_wi(d).len() as int) =~= s.take(strip_wi(d).len() as int));
        if s.last() is Indentation { lemma_strip(d, n + s.last()->Indentation_0); }
    }
}
pub proof fn lemma_space<L: Lang>(t: TS<L>) requires inv(t), ensures inv(st_ws(t, op_space(t.items))) {
    lemma_chain_push(t.items, Item::<L>::Space);
}
pub proof fn lemma_push<L: Lang>(t: TS<L>) requires inv(t), ensures inv(st_ws(t, op_push(t.items))) {
    lemma_strip(t.items, 0);
    let k = strip_sp(t.items).len() as int;
    lemma_chain_prefix(t.items, k); lemma_nf_prefix(t.items, k);
    lemma_chain_push(t.items.take(k), Item::<L>::Push);
}
pub proof fn lemma_line<L: Lang>(t: TS<L>) requires inv(t), ensures inv(st_ws(t, op_line(t.items))) {
    lemma_strip(t.items, 0);
    let k = strip_lp(t.items).len() as int;
    lemma_chain_prefix(t.items, k); lemma_nf_prefix(t.items, k);
    lemma_chain_push(t.items.take(k), Item::<L>::Line);
}
pub proof fn lemma_indentation<L: Lang>(t: TS<L>, n: int) requires inv(t), fits_wi(t.items, n), ensures inv(st_ws(t, op_indentation(t.items, n))), fits(sum_wi(t.items, n)) {
    lemma_strip(t.items, n);
    let k = strip_wi(t.items).len() as int;
    lemma_chain_prefix(t.items, k); lemma_nf_prefix(t.items, k);
    lemma_chain_push(t.items.take(k), Item::<L>::Indentation(sum_wi(t.items, n) as i16));
}
pub proof fn lemma_lang<L: Lang>(t: TS<L>, x: Box<L::Item>) requires inv(t), t.items.len() < usize::MAX, ensures inv(op_lang(t, x)) {
    lemma_last_lang(t.items);
    lemma_chain_push(t.items, Item::<L>::Lang(t.last as usize, x));
}
pub proof fn lemma_register<L: Lang>(t: TS<L>, x: Box<L::Item>) requires inv(t), t.items.len() < usize::MAX, ensures inv(op_register(t, x)) {
    lemma_last_lang(t.items);
    lemma_chain_push(t.items, Item::<L>::Register(t.last as usize, x));
}
pub proof fn lemma_item<L: Lang>(t: TS<L>, i: Item<L>) requires inv(t), item_fits(t, i), ensures inv(op_item(t, i)) {
    match i {
        Item::Push => lemma_push(t),
        Item::Line => lemma_line(t),
        Item::Space => lemma_space(t),
        Item::Indentation(n) => lemma_indentation(t, n as int),
        Item::Lang(_, x) => lemma_lang(t, x),
        Item::Register(_, x) => lemma_register(t, x),
        other => lemma_chain_push(t.items, other),
    }
}

// ---- theorems ----
/// T02: following the chain from the head visits every language item exactly once, last one first
pub proof fn theorem_walk_complete<L: Lang>(s: Seq<Item<L>>)
    requires chain_wf(s),
    ensures walk(s, last_lang(s)) == imports_rev(s),
    decreases s.len()
{
    lemma_last_lang(s);
    if s.len() > 0 {
        let d = s.drop_last();
        assert(s.take(s.len() - 1) =~= d);
        if is_lang(s.last()) {
            lemma_chain_prefix2(s, s.len() - 1);
            theorem_walk_complete(d);
            lemma_last_lang(d);
            lemma_walk_prefix(d, s, last_lang(d));
        } else {
            lemma_chain_prefix(s, s.len() - 1);
            theorem_walk_complete(d);
            lemma_walk_prefix(d, s, last_lang(d));
        }
    }
}
pub proof fn lemma_chain_prefix2<L: Lang>(s: Seq<Item<L>>, n: int)
    requires 0 <= n <= s.len(), chain_wf(s), ensures chain_wf(s.take(n)),
{
    let t = s.take(n);
    assert forall|i: int| 0 <= i < t.len() && is_lang(t[i]) implies lang_prev(#[trigger] t[i]) == last_lang(t.take(i)) by {
        assert(t.take(i) =~= s.take(i)); assert(t[i] == s[i]);
    }
}
pub proof fn lemma_walk_prefix<L: Lang>(d: Seq<Item<L>>, s: Seq<Item<L>>, pos: nat)
    requires d.len() <= s.len(), s.take(d.len() as int) == d, pos <= d.len(),
    ensures walk(d, pos) == walk(s, pos),
    decreases pos
{
    if pos > 0 {
        assert(d[pos - 1] == s[pos - 1]);
        if is_lang(s[pos - 1]) && lang_prev(s[pos - 1]) < pos { lemma_walk_prefix(d, s, lang_prev(s[pos - 1])); }
    }
}
pub open spec fn ts_empty<L: Lang>() -> TS<L> { TS { items: Seq::empty(), last: 0 } }
/// the effect of appending the items s one by one
pub open spec fn append_all<L: Lang>(t: TS<L>, s: Seq<Item<L>>) -> TS<L> decreases s.len() {
    if s.len() == 0 { t } else { op_item(append_all(t, s.drop_last()), s.last()) }
}
pub open spec fn all_fit<L: Lang>(t: TS<L>, s: Seq<Item<L>>) -> bool decreases s.len() {
    if s.len() == 0 { true } else { all_fit(t, s.drop_last()) && item_fits(append_all(t, s.drop_last()), s.last()) }
}
/// T03: a stream fed its own items from scratch is the same stream, embedded positions included
#[verifier::rlimit(60)]
pub proof fn theorem_rebuild<L: Lang>(s: Seq<Item<L>>)
    requires nf(s), chain_wf(s), s.len() <= usize::MAX,
    ensures append_all(ts_empty(), s) == (TS { items: s, last: last_lang(s) }), all_fit(ts_empty(), s),
    decreases s.len()
{
    reveal_with_fuel(fits_wi, 2); reveal_with_fuel(sum_wi, 2);
    if s.len() > 0 {
        let d = s.drop_last(); let x = s.last();
        assert(s.take(s.len() - 1) =~= d);
        lemma_nf_prefix(s, s.len() - 1); lemma_chain_prefix2(s, s.len() - 1);
        theorem_rebuild(d);
        assert(d.push(x) =~= s);
        lemma_last_lang(d);
        if d.len() > 0 { assert(pair_ok(s[s.len() - 2], s[s.len() - 1])); assert(d.last() == s[s.len() - 2]); }
        assert(s[s.len() - 1] == x);
    } else { assert(s =~= Seq::empty()); }
}
pub proof fn lemma_append_all_inv<L: Lang>(t: TS<L>, s: Seq<Item<L>>)
    requires inv(t), all_fit(t, s), ensures inv(append_all(t, s)), decreases s.len()
{
    if s.len() > 0 { lemma_append_all_inv(t, s.drop_last()); lemma_item(append_all(t, s.drop_last()), s.last()); }
}

pub proof fn lemma_append_step<L: Lang>(t: TS<L>, s: Seq<Item<L>>, i: int)
    requires 0 <= i < s.len(), all_fit(t, s),
    ensures all_fit(t, s.take(i)), all_fit(t, s.take(i + 1)), item_fits(append_all(t, s.take(i)), s[i]),
        append_all(t, s.take(i + 1)) == op_item(append_all(t, s.take(i)), s[i]),
    decreases s.len()
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 < s.len() {
        let d = s.drop_last();
        assert(d.take(i) =~= s.take(i)); assert(d.take(i + 1) =~= s.take(i + 1));
        lemma_append_step(t, d, i);
    } else { assert(s.take(i + 1) =~= s); assert(s.drop_last() =~= s.take(i)); }
}
