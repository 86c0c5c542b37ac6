// ---- the text of a header, linked to the stream it is built in and to the formatter ----
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::iter::*;
verus! {
global size_of usize == 8;
@include std_model.vrs
@include items.vrs
@include fmt_core.vrs
@include lang_fmt.vrs
@include fmt_render.vrs
@include tokens_spec.vrs
pub mod docs {
use vstd::prelude::*;
@include doc_core.vrs
}
use docs::*;

// ---- what text is written for a document ----
pub open spec fn unit_of(c: Cfg, n: int) -> Seq<char> {
    match c.ind { Indentation::Tab => rep('\t', n as nat), Indentation::Space(k) => rep(' ', (n * k) as nat) }
}
/// delimiters of a plain string
pub struct Dl { pub o: Seq<char>, pub c: Seq<char> }
pub open spec fn dl<L: Lang>(lc: &L::Config, lf: &L::Format) -> Dl { Dl { o: L::s_open(lc, lf, false), c: L::s_close(lc, lf, false) } }
pub open spec fn rt<L: Lang>(c: Cfg, q: Dl, t: Tk) -> Seq<char> {
    match t { Tk::C(x) => seq![x], Tk::Q(s) => q.o + L::s_quoted(s) + q.c, Tk::Ind(n) => unit_of(c, n) }
}
/// a line
pub open spec fn rl<L: Lang>(c: Cfg, q: Dl, s: Seq<Tk>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { rl::<L>(c, q, s.drop_last()) + rt::<L>(c, q, s.last()) }
}
/// lines, each with its line break
pub open spec fn rls<L: Lang>(c: Cfg, q: Dl, s: Seq<Seq<Tk>>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { rls::<L>(c, q, s.drop_last()) + rl::<L>(c, q, s.last()) + c.nl }
}
/// the state of a formatter that has written d
pub open spec fn st_of<L: Lang>(c: Cfg, q: Dl, d: Doc) -> FS {
    FS {
        w: WS::Chars(rls::<L>(c, q, d.lines) + rl::<L>(c, q, d.cur)),
        line: if d.cur.len() == 0 { Whitespace::Initial } else if d.pend == 0 { Whitespace::None } else if d.pend == 1 { Whitespace::Push } else { Whitespace::Line },
        spaces: if d.sp { 1 } else { 0 }, indent: d.ind,
    }
}
pub proof fn lemma_rl_cat<L: Lang>(c: Cfg, q: Dl, a: Seq<Tk>, b: Seq<Tk>)
    ensures rl::<L>(c, q, a + b) == rl::<L>(c, q, a) + rl::<L>(c, q, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(rl::<L>(c, q, a) + rl::<L>(c, q, b) =~= rl::<L>(c, q, a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        lemma_rl_cat::<L>(c, q, a, b.drop_last());
        assert(rl::<L>(c, q, a + b) =~= rl::<L>(c, q, a) + rl::<L>(c, q, b));
    }
}
pub proof fn lemma_rl_one<L: Lang>(c: Cfg, q: Dl, t: Tk)
    ensures rl::<L>(c, q, seq![t]) == rt::<L>(c, q, t)
{
    reveal_with_fuel(rl, 2);
    assert(seq![t].drop_last() =~= Seq::<Tk>::empty());
    assert(rl::<L>(c, q, seq![t]) =~= rt::<L>(c, q, t));
}
pub proof fn lemma_rl_chars<L: Lang>(c: Cfg, q: Dl, s: Seq<char>)
    ensures rl::<L>(c, q, chars(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert(chars(s).drop_last() =~= chars(s.drop_last()));
        lemma_rl_chars::<L>(c, q, s.drop_last());
        assert(chars(s).last() == Tk::C(s.last()));
        assert(s =~= s.drop_last() + seq![s.last()]);
    }
}
/// writing text to a formatter that has written d
pub proof fn lemma_emit_doc<L: Lang>(c: Cfg, q: Dl, d: Doc, t: Seq<Tk>)
    requires t.len() > 0, rl::<L>(c, q, t).len() > 0, d.cur.len() == 0 ==> d.lines.len() == 0, d.pend <= 2,
        d.cur.len() > 0 && d.pend == 0 ==> d.ind == d.base,
    ensures emit(c, st_of::<L>(c, q, d), rl::<L>(c, q, t)) == st_of::<L>(c, q, d_text(d, t)), rl::<L>(c, q, d_text(d, t).cur).len() > 0
{
    let f = st_of::<L>(c, q, d);
    let e = d_text(d, t);
    let brk = d.cur.len() > 0 && d.pend > 0;
    let ind: Seq<Tk> = if (brk || d.cur.len() == 0) && d.ind > 0 { seq![Tk::Ind(d.ind)] } else { seq![] };
    let s: Seq<Tk> = if d.sp { seq![Tk::C(' ')] } else { seq![] };
    let b: Seq<Tk> = if brk { seq![] } else { d.cur };
    lemma_rl_cat::<L>(c, q, b + ind + s, t); lemma_rl_cat::<L>(c, q, b + ind, s); lemma_rl_cat::<L>(c, q, b, ind);
    lemma_rl_one::<L>(c, q, Tk::Ind(d.ind)); lemma_rl_one::<L>(c, q, Tk::C(' '));
    assert(e.cur == b + ind + s + t);
    assert(rl::<L>(c, q, s) =~= rep(' ', if d.sp { 1 } else { 0 }));
    let lvl = lvl(f);
    let k: nat = match c.ind { Indentation::Space(k) => k as nat, _ => 0 };
    assert(lvl * k >= 0) by (nonlinear_arith) requires lvl >= 0, k >= 0;
    let padi = if f.line is None { Seq::<char>::empty() } else { unit_of(c, lvl as int) };
    assert(rl::<L>(c, q, ind) =~= padi) by {
        if d.ind <= 0 || f.line is None { assert(0 * k == 0); }
    }
    lemma_rep(' ', lvl * k, if d.sp { 1 } else { 0 });
    assert(pad(c, f) =~= padi + rl::<L>(c, q, s)) by { assert(0 * k == 0); }
    reveal_with_fuel(ws_nls, 3);
    reveal_with_fuel(rls, 3);
    reveal_with_fuel(rl, 1);
    let l1 = d.lines.push(d.cur); let l2 = l1.push(Seq::empty());
    assert(l1.drop_last() =~= d.lines); assert(l2.drop_last() =~= l1);
    assert(rl::<L>(c, q, Seq::<Tk>::empty()) =~= Seq::<char>::empty());
    let g = emit(c, f, rl::<L>(c, q, t));
    let h = st_of::<L>(c, q, e);
    assert(g.w->Chars_0 =~= h.w->Chars_0);
    assert(e.cur.len() > 0);
}

// ---- running over a stream of text, layout and plain strings ----
pub open spec fn is_text<L: Lang>(i: Item<L>) -> bool { i is Literal || i is OpenQuote || i is CloseQuote }
/// a state, and whether a string is open
pub struct G { pub f: FS, pub q: bool }
pub open spec fn go1<L: Lang>(c: Cfg, q: Dl, g: G, i: Item<L>) -> G {
    match i {
        Item::Literal(x) => G { f: emit(c, g.f, if g.q { L::s_quoted(x@) } else { x@ }), ..g },
        Item::Push => G { f: do_push(g.f), ..g },
        Item::Line => G { f: do_line(g.f), ..g },
        Item::Space => G { f: do_space(g.f), ..g },
        Item::Indentation(n) => G { f: if n == 0 { g.f } else { do_indent(g.f, n as int) }, ..g },
        Item::OpenQuote(_) => G { f: emit(c, g.f, q.o), q: true },
        Item::CloseQuote => G { f: emit(c, g.f, q.c), q: false },
        _ => g,
    }
}
pub open spec fn go<L: Lang>(c: Cfg, q: Dl, g: G, s: Seq<Item<L>>) -> G decreases s.len() {
    if s.len() == 0 { g } else { go1::<L>(c, q, go::<L>(c, q, g, s.drop_last()), s.last()) }
}
/// a string is open after s
pub open spec fn qf<L: Lang>(s: Seq<Item<L>>) -> bool decreases s.len() {
    if s.len() == 0 { false } else { match s.last() { Item::OpenQuote(_) => true, Item::CloseQuote => false, _ => qf(s.drop_last()) } }
}
pub open spec fn plain<L: Lang>(s: Seq<Item<L>>) -> bool decreases s.len() {
    s.len() > 0 ==> plain(s.drop_last()) && match s.last() {
        Item::OpenQuote(e) => !e && !qf(s.drop_last()), Item::CloseQuote => qf(s.drop_last()),
        Item::Literal(_) => true, Item::Push => true, Item::Line => true, Item::Space => true, Item::Indentation(_) => true, _ => false }
}
pub proof fn lemma_go_cat<L: Lang>(c: Cfg, q: Dl, g: G, s: Seq<Item<L>>, t: Seq<Item<L>>)
    ensures go::<L>(c, q, g, s + t) == go::<L>(c, q, go::<L>(c, q, g, s), t)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); }
    else { assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last()); lemma_go_cat::<L>(c, q, g, s, t.drop_last()); }
}
pub proof fn lemma_go_q<L: Lang>(c: Cfg, q: Dl, f: FS, s: Seq<Item<L>>)
    ensures go::<L>(c, q, G { f, q: false }, s).q == qf(s)
    decreases s.len()
{ if s.len() > 0 { lemma_go_q::<L>(c, q, f, s.drop_last()); } }
pub proof fn lemma_plain_cat<L: Lang>(s: Seq<Item<L>>, t: Seq<Item<L>>)
    requires plain(s), !qf(s), plain(t), ensures plain(s + t), qf(s + t) == qf(t)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); }
    else { assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last()); lemma_plain_cat(s, t.drop_last()); }
}
/// no literal or string at the end of s from n on: nothing opens or closes there
pub proof fn lemma_plain_take<L: Lang>(s: Seq<Item<L>>, n: int)
    requires plain(s), 0 <= n <= s.len(), forall|i: int| n <= i < s.len() ==> !is_text(#[trigger] s[i]),
    ensures plain(s.take(n)), qf(s.take(n)) == qf(s)
    decreases s.len()
{
    if n == s.len() { assert(s.take(n) =~= s); }
    else { let d = s.drop_last(); assert(forall|i: int| n <= i < d.len() ==> #[trigger] d[i] == s[i]); assert(!is_text(s[s.len() - 1])); lemma_plain_take(d, n); assert(d.take(n) =~= s.take(n)); }
}
pub open spec fn frame_q(q: bool) -> Frame { Frame { in_quote: q, has_eval: false, end_on_eval: false } }
/// the formatter does to such a stream what go says
pub proof fn lemma_run_go<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, s: Seq<Item<L>>, r: Seq<Item<L>>)
    requires plain(s)
    ensures run::<L>(c, lc, lf, f, s + r, seq![frame0()], false) == ({ let g = go::<L>(c, dl::<L>(lc, lf), G { f, q: false }, s); run::<L>(c, lc, lf, g.f, r, seq![frame_q(g.q)], false) })
    decreases s.len()
{
    let q = dl::<L>(lc, lf);
    if s.len() == 0 { assert(s + r =~= r); }
    else {
        let d = s.drop_last(); let x = s.last();
        let g = go::<L>(c, q, G { f, q: false }, d);
        lemma_run_go::<L>(c, lc, lf, f, d, seq![x] + r);
        assert(d + (seq![x] + r) =~= s + r);
        let t = seq![x] + r;
        assert(t.skip(1) =~= r); assert(t[0] == x);
        lemma_go_q::<L>(c, q, f, d);
        let st = seq![frame_q(g.q)];
        assert(st.last() == frame_q(g.q));
        assert(top(st, frame_q(true)) =~= seq![frame_q(true)]);
        assert(top(st, frame_q(false)) =~= seq![frame_q(false)]);
    }
}

// ---- what the layout operations of a stream do to that ----
pub proof fn lemma_go_push<L: Lang>(c: Cfg, q: Dl, g: G, s: Seq<Item<L>>)
    ensures do_push(go::<L>(c, q, g, strip_sp(s)).f) == do_push(go::<L>(c, q, g, s).f)
    decreases s.len()
{ if s.len() > 0 && (s.last() is Space || s.last() is Push) { lemma_go_push::<L>(c, q, g, s.drop_last()); } }
pub proof fn lemma_go_line<L: Lang>(c: Cfg, q: Dl, g: G, s: Seq<Item<L>>)
    ensures do_line(go::<L>(c, q, g, strip_lp(s)).f) == do_line(go::<L>(c, q, g, s).f)
    decreases s.len()
{ if s.len() > 0 && (s.last() is Line || s.last() is Push) { lemma_go_line::<L>(c, q, g, s.drop_last()); } }
pub proof fn lemma_go_op_push<L: Lang>(c: Cfg, q: Dl, g: G, s: Seq<Item<L>>)
    requires !g.q, plain(s), !qf(s)
    ensures go::<L>(c, q, g, op_push(s)) == (G { f: do_push(go::<L>(c, q, g, s).f), q: false })
{
    lemma_go_push::<L>(c, q, g, s);
    lemma_strip(s, 0);
    let t = strip_sp(s);
    lemma_wsp(s);
    lemma_plain_take(s, t.len() as int);
    lemma_go_q::<L>(c, q, g.f, t);
    assert(t.push(Item::<L>::Push).drop_last() =~= t);
}
/// what the strips take away is not text
pub proof fn lemma_wsp<L: Lang>(s: Seq<Item<L>>)
    ensures forall|i: int| strip_sp(s).len() <= i < s.len() ==> !is_text(#[trigger] s[i]),
        forall|i: int| strip_lp(s).len() <= i < s.len() ==> !is_text(#[trigger] s[i]),
        forall|i: int| strip_wi(s).len() <= i < s.len() ==> !is_text(#[trigger] s[i]),
    decreases s.len()
{
    if s.len() > 0 { let d = s.drop_last(); lemma_wsp(d); assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] s[i] == d[i]); }
}
pub proof fn lemma_go_op_line<L: Lang>(c: Cfg, q: Dl, g: G, s: Seq<Item<L>>)
    requires !g.q, plain(s), !qf(s)
    ensures go::<L>(c, q, g, op_line(s)) == (G { f: do_line(go::<L>(c, q, g, s).f), q: false })
{
    lemma_go_line::<L>(c, q, g, s);
    lemma_strip(s, 0);
    let t = strip_lp(s);
    lemma_wsp(s);
    lemma_plain_take(s, t.len() as int);
    lemma_go_q::<L>(c, q, g.f, t);
    assert(t.push(Item::<L>::Line).drop_last() =~= t);
}
/// the layout operations leave the text before the trailing layout alone
pub proof fn lemma_strip_push<L: Lang>(s: Seq<Item<L>>, x: Item<L>)
    requires is_ws(x) || x is Indentation
    ensures strip_wi(s.push(x)) == strip_wi(s), !(x is Indentation) ==> sum_wi(s.push(x), 0) == sum_wi(s, 0),
        strip_wi(strip_wi(s)) == strip_wi(s), sum_wi(strip_wi(s), 0) == 0,
        x is Indentation ==> sum_wi(s.push(x), 0) == sum_wi(s, 0) + x->Indentation_0,
    decreases s.len()
{
    assert(s.push(x).drop_last() =~= s);
    lemma_sum_shift(s, 0, if x is Indentation { x->Indentation_0 as int } else { 0 });
    lemma_strip_idem(s);
}
pub proof fn lemma_strip_idem<L: Lang>(s: Seq<Item<L>>)
    ensures strip_wi(strip_wi(s)) == strip_wi(s), sum_wi(strip_wi(s), 0) == 0,
    decreases s.len()
{ if s.len() > 0 && (is_ws(s.last()) || s.last() is Indentation) { lemma_strip_idem(s.drop_last()); } }
pub proof fn lemma_sum_shift<L: Lang>(s: Seq<Item<L>>, n: int, m: int)
    ensures sum_wi(s, n + m) == sum_wi(s, n) + m
    decreases s.len()
{
    if s.len() > 0 {
        if s.last() is Indentation { lemma_sum_shift(s.drop_last(), n + s.last()->Indentation_0, m); assert(n + m + s.last()->Indentation_0 == n + s.last()->Indentation_0 + m); }
        else { lemma_sum_shift(s.drop_last(), n, m); }
    }
}
pub proof fn lemma_strip_sp<L: Lang>(s: Seq<Item<L>>)
    ensures strip_wi(strip_sp(s)) == strip_wi(s), strip_wi(strip_lp(s)) == strip_wi(s), sum_wi(strip_sp(s), 0) == sum_wi(s, 0), sum_wi(strip_lp(s), 0) == sum_wi(s, 0),
    decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { lemma_strip_sp(s.drop_last()); } }

// ---- the relation between a stream and its document ----
/// the document with nothing pending
pub open spec fn based(d: Doc) -> Doc { Doc { pend: 0, sp: false, ind: d.base, ..d } }
/// going over s writes u, from any state
pub open spec fn writes<L: Lang>(c: Cfg, q: Dl, s: Seq<Item<L>>, u: Seq<char>, sp: bool) -> bool {
    forall|f: FS| #[trigger] go::<L>(c, q, G { f, q: false }, s) == (G { f: if sp { do_space(emit(c, f, u)) } else { emit(c, f, u) }, q: false })
}
pub open spec fn doc_ok(d: Doc) -> bool {
    &&& d.cur.len() == 0 ==> d.lines.len() == 0 && d.base == 0
    &&& d.pend <= 2
    &&& d.pend == 0 ==> d.ind == d.base
}
pub open spec fn starts_text<L: Lang>(s: Seq<Item<L>>) -> bool { s.len() > 0 && is_text(s[0]) }
/// cl: nothing but text comes first
pub open spec fn rel<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool) -> bool {
    let s = t.items;
    let k = strip_wi(s);
    let o = fresh(WS::Chars(Seq::empty()));
    &&& inv(t) && plain(s) && !qf(s) && doc_ok(d)
    &&& go::<L>(c, q, G { f: o, q: false }, s) == (G { f: st_of::<L>(c, q, d), q: false })
    &&& !d.held ==> go::<L>(c, q, G { f: o, q: false }, k) == (G { f: st_of::<L>(c, q, based(d)), q: false })
    &&& !d.held && d.pend == 0 ==> s == if d.sp { k.push(Item::<L>::Space) } else { k }
    &&& !d.held ==> (d.sp <==> s.len() > 0 && s.last() is Space)
    &&& !d.held && d.cur.len() == 0 ==> k.len() == 0
    &&& d.cur.len() > 0 ==> rl::<L>(c, q, d.cur).len() > 0
    &&& !d.held ==> sum_wi(s, 0) == d.ind - d.base
    &&& cl && (d.held || d.cur.len() > 0) ==> starts_text(s)
    &&& cl && d.lines.len() == 0 && d.cur.len() > 0 && d.pend == 0 && d.ind == 0 ==> writes::<L>(c, q, s, rl::<L>(c, q, d.cur), d.sp)
    &&& cl && d.cur.len() == 0 && untouched(d) ==> writes::<L>(c, q, s, Seq::empty(), false)
    &&& cl && !d.held && d.lines.len() == 0 && d.cur.len() > 0 && d.base == 0 ==> writes::<L>(c, q, k, rl::<L>(c, q, d.cur), false)
}
pub proof fn theorem_new<L: Lang>(c: Cfg, q: Dl)
    ensures rel::<L>(c, q, ts_empty(), d_empty(), true)
{
    let d = d_empty();
    assert(rls::<L>(c, q, d.lines) + rl::<L>(c, q, d.cur) =~= Seq::<char>::empty());
    let f = fresh(WS::Chars(Seq::empty()));
}
pub proof fn theorem_push<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool)
    requires rel::<L>(c, q, t, d, cl)
    ensures rel::<L>(c, q, op_item(t, Item::<L>::Push), d_push(d), cl)
{
    let s = t.items; let u = op_push(s);
    let o = fresh(WS::Chars(Seq::empty()));
    lemma_item(t, Item::<L>::Push);
    lemma_go_op_push::<L>(c, q, G { f: o, q: false }, s);
    layout_plain(s); lemma_strip_sp(s); lemma_strip_push(strip_sp(s), Item::<L>::Push);
    assert(do_push(st_of::<L>(c, q, d)) == st_of::<L>(c, q, d_push(d)));
    assert(based(d_push(d)) == based(d));
    lemma_strip_push(u, Item::<L>::Push);
}
pub proof fn theorem_line<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool)
    requires rel::<L>(c, q, t, d, cl)
    ensures rel::<L>(c, q, op_item(t, Item::<L>::Line), d_line(d), cl)
{
    let s = t.items; let u = op_line(s);
    let o = fresh(WS::Chars(Seq::empty()));
    lemma_item(t, Item::<L>::Line);
    lemma_go_op_line::<L>(c, q, G { f: o, q: false }, s);
    layout_plain(s); lemma_strip_sp(s); lemma_strip_push(strip_lp(s), Item::<L>::Line);
    assert(do_line(st_of::<L>(c, q, d)) == st_of::<L>(c, q, d_line(d)));
    assert(based(d_line(d)) == based(d));
}
pub proof fn lemma_plain_push<L: Lang>(s: Seq<Item<L>>, x: Item<L>)
    requires plain(s), !qf(s), is_ws(x) || x is Indentation, ensures plain(s.push(x)), !qf(s.push(x)),
{ assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); }
/// the layout operations leave a plain stream plain
pub proof fn layout_plain<L: Lang>(s: Seq<Item<L>>)
    requires plain(s), !qf(s)
    ensures plain(strip_wi(s)), !qf(strip_wi(s)), plain(op_push(s)), !qf(op_push(s)), plain(op_line(s)), !qf(op_line(s)),
        starts_text(s) ==> starts_text(strip_wi(s)) && starts_text(op_push(s)) && starts_text(op_line(s)),
        forall|x: Item<L>| #![trigger s.push(x)] is_ws(x) || x is Indentation ==> plain(s.push(x)) && !qf(s.push(x)) && plain(strip_wi(s).push(x)) && !qf(strip_wi(s).push(x)),
{
    lemma_strip(s, 0); lemma_wsp(s);
    lemma_plain_take(s, strip_sp(s).len() as int); lemma_plain_take(s, strip_lp(s).len() as int); lemma_plain_take(s, strip_wi(s).len() as int);
    assert(strip_sp(s).push(Item::<L>::Push).drop_last() =~= strip_sp(s));
    assert(strip_lp(s).push(Item::<L>::Line).drop_last() =~= strip_lp(s));
    assert forall|x: Item<L>| #![trigger s.push(x)] is_ws(x) || x is Indentation implies plain(s.push(x)) && !qf(s.push(x)) && plain(strip_wi(s).push(x)) && !qf(strip_wi(s).push(x)) by {
        lemma_plain_push(s, x); lemma_plain_push(strip_wi(s), x);
    }
    if starts_text(s) { 
        if strip_sp(s).len() == 0 { assert(!is_text(s[0])); }
        if strip_lp(s).len() == 0 { assert(!is_text(s[0])); }
        if strip_wi(s).len() == 0 { assert(!is_text(s[0])); }
    }
}
pub proof fn theorem_space<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool)
    requires rel::<L>(c, q, t, d, cl), !d.held
    ensures rel::<L>(c, q, op_item(t, Item::<L>::Space), d_space(d), cl)
{
    let s = t.items; let u = op_space(s);
    let o = fresh(WS::Chars(Seq::empty()));
    lemma_item(t, Item::<L>::Space);
    if d.sp { assert(d_space(d) == d); assert(u == s); }
    else {
        layout_plain(s); lemma_strip_push(s, Item::<L>::Space);
        assert(u == s.push(Item::<L>::Space)); assert(u.drop_last() =~= s);
        assert(do_space(st_of::<L>(c, q, d)) == st_of::<L>(c, q, d_space(d)));
        assert(based(d_space(d)) == based(d));
        let e = d_space(d);
        if cl && e.lines.len() == 0 && e.cur.len() > 0 && e.pend == 0 && e.ind == 0 {
            assert forall|f: FS| #[trigger] go::<L>(c, q, G { f, q: false }, u) == (G { f: do_space(emit(c, f, rl::<L>(c, q, e.cur))), q: false }) by {
                assert(go::<L>(c, q, G { f, q: false }, s) == (G { f: emit(c, f, rl::<L>(c, q, d.cur)), q: false }));
            }
        }
    }
}
pub proof fn lemma_rel_sum<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool)
    requires rel::<L>(c, q, t, d, cl), !d.held
    ensures inv(t), sum_wi(t.items, 0) == d.ind - d.base
{}
/// tokens.indent(), tokens.unindent(): n is 1 or -1
pub proof fn theorem_indent<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool, n: i16)
    requires rel::<L>(c, q, t, d, cl), !d.held, fits_wi(t.items, n as int)
    ensures rel::<L>(c, q, op_item(t, Item::<L>::Indentation(n)), d_indent(d, n as int), cl)
{
    hide(rel); hide(inv);
    let s = t.items; let k = strip_wi(s); let u = op_indentation(s, n as int);
    lemma_rel_sum::<L>(c, q, t, d, cl);
    lemma_item(t, Item::<L>::Indentation(n));
    let m = sum_wi(s, n as int);
    lemma_sum_shift(s, 0, n as int);
    lemma_strip(s, n as int);
    let e = d_indent(d, n as int);
    assert(m == d.ind + n - d.base);
    if m == 0 { assert(u == k); assert(e == based(d)); lemma_indent0::<L>(c, q, t, d, cl); }
    else { lemma_indent1::<L>(c, q, t, d, cl, e.ind, m); }
}
pub proof fn lemma_indent0<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool)
    requires rel::<L>(c, q, t, d, cl), !d.held, inv(st_ws(t, strip_wi(t.items)))
    ensures rel::<L>(c, q, st_ws(t, strip_wi(t.items)), based(d), cl)
{
    let s = t.items; let k = strip_wi(s); let e = based(d);
    layout_plain(s); lemma_strip_idem(s); lemma_strip(s, 0);
    assert(based(e) == e); assert(strip_wi(k) == k);
    assert(k.len() > 0 ==> !(k.last() is Space));
    if cl && e.cur.len() == 0 && untouched(e) { assert(k =~= Seq::empty()); }
}
pub proof fn lemma_indent1<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool, n: int, m: int)
    requires rel::<L>(c, q, t, d, cl), !d.held, n != d.base, m == n - d.base, fits(m), inv(st_ws(t, strip_wi(t.items).push(Item::<L>::Indentation(m as i16))))
    ensures rel::<L>(c, q, st_ws(t, strip_wi(t.items).push(Item::<L>::Indentation(m as i16))), Doc { pend: 1, sp: false, ind: n, ..d }, cl)
{
    let s = t.items; let k = strip_wi(s); let e = Doc { pend: 1, sp: false, ind: n, ..d };
    let o = fresh(WS::Chars(Seq::empty()));
    let x = Item::<L>::Indentation(m as i16);
    let u = k.push(x);
    layout_plain(s); lemma_strip_idem(s); lemma_plain_push(k, x); lemma_strip_push(k, x);
    assert(u.drop_last() =~= k); assert(u.last() == x);
    assert(do_indent(st_of::<L>(c, q, based(d)), m) == st_of::<L>(c, q, e));
    assert(based(e) == based(d));
    assert(go::<L>(c, q, G { f: o, q: false }, u) == (G { f: st_of::<L>(c, q, e), q: false }));
    if starts_text(s) { assert(u[0] == k[0]); }
}
/// going over x writes u, and x is text at both ends
pub open spec fn text_items<L: Lang>(c: Cfg, q: Dl, x: Seq<Item<L>>, u: Seq<char>) -> bool {
    plain(x) && !qf(x) && x.len() > 0 && is_text(x[0]) && is_text(x.last()) && writes::<L>(c, q, x, u, false)
}
pub proof fn lemma_text<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool, x: TS<L>, v: Seq<Tk>)
    requires rel::<L>(c, q, t, d, cl), text_items::<L>(c, q, x.items.skip(t.items.len() as int), rl::<L>(c, q, v)), x.items.take(t.items.len() as int) == t.items, x.items.len() >= t.items.len(), inv(x),
        v.len() > 0 ==> rl::<L>(c, q, v).len() > 0,
    ensures rel::<L>(c, q, x, d_text(d, v), cl && untouched(d))
{
    let s = t.items; let y = x.items.skip(s.len() as int); let z = x.items;
    assert(z =~= s + y);
    let o = fresh(WS::Chars(Seq::empty()));
    let e = d_text(d, v);
    let w = rl::<L>(c, q, v);
    lemma_plain_cat(s, y);
    lemma_go_cat::<L>(c, q, G { f: o, q: false }, s, y);
    assert(z.last() == y.last()); assert(strip_wi(z) == z); assert(sum_wi(z, 0) == 0);
    if v.len() > 0 {
        lemma_emit_doc::<L>(c, q, d, v);
        assert(based(e) == e);
    } else {
        assert(w =~= Seq::empty());
        assert(st_of::<L>(c, q, e) == st_of::<L>(c, q, d));
        if !e.held { assert(based(e) == e); assert(s == strip_wi(s)); }
    }
    assert(z[0] == if s.len() > 0 { s[0] } else { y[0] });
    assert(go::<L>(c, q, G { f: o, q: false }, z) == (G { f: st_of::<L>(c, q, e), q: false }));
    assert(!e.held ==> go::<L>(c, q, G { f: o, q: false }, strip_wi(z)) == (G { f: st_of::<L>(c, q, based(e)), q: false }));
    assert(doc_ok(e));
    assert(e.cur.len() > 0 ==> rl::<L>(c, q, e.cur).len() > 0);
    assert(!e.held && e.pend == 0 ==> !e.sp);
    if cl && untouched(d) {
        if s.len() > 0 { assert(z[0] == s[0]); } else { assert(z[0] == y[0]); }
        if !(d.held || d.cur.len() > 0) { assert(s =~= Seq::empty()); }
        if e.lines.len() == 0 && e.cur.len() > 0 && e.pend == 0 && e.ind == 0 {
            assert forall|f: FS| #[trigger] go::<L>(c, q, G { f, q: false }, z) == (G { f: if e.sp { do_space(emit(c, f, rl::<L>(c, q, e.cur))) } else { emit(c, f, rl::<L>(c, q, e.cur)) }, q: false }) by {
                lemma_go_cat::<L>(c, q, G { f, q: false }, s, y);
                let g = go::<L>(c, q, G { f, q: false }, s).f;
                assert(!g_q::<L>(c, q, f, s)) by { lemma_go_q::<L>(c, q, f, s); }
                assert(go::<L>(c, q, G { f: g, q: false }, y) == (G { f: emit(c, g, w), q: false }));
                if v.len() == 0 {
                    assert(emit(c, g, w) == g);
                } else if d.cur.len() == 0 {
                    assert(g == emit(c, f, Seq::empty())); assert(g == f);
                    assert(e.cur =~= v);
                } else {
                    let a = rl::<L>(c, q, d.cur);
                    let b = emit(c, f, a);
                    assert(g == if d.sp { do_space(b) } else { b });
                    lemma_within::<L>(c, q, d, v, f);
                }
            }
            assert(writes::<L>(c, q, z, rl::<L>(c, q, e.cur), e.sp));
        }
        if e.cur.len() == 0 && untouched(e) {
            assert forall|f: FS| #[trigger] go::<L>(c, q, G { f, q: false }, z) == (G { f: emit(c, f, Seq::empty()), q: false }) by {
                lemma_go_cat::<L>(c, q, G { f, q: false }, s, y);
                assert(go::<L>(c, q, G { f, q: false }, s) == (G { f: emit(c, f, Seq::empty()), q: false }));
                assert(go::<L>(c, q, G { f: f, q: false }, y) == (G { f: emit(c, f, w), q: false }));
            }
        }
        if !e.held && e.lines.len() == 0 && e.cur.len() > 0 && e.base == 0 {
            assert(strip_wi(z) == z);
            assert(d.lines.len() == 0);
            if v.len() > 0 { assert(e.ind == 0 && e.pend == 0 && !e.sp); } else { assert(within(d) && d.ind == d.base); }
            assert(writes::<L>(c, q, z, rl::<L>(c, q, e.cur), e.sp));
        }
    }
}
pub open spec fn g_q<L: Lang>(c: Cfg, q: Dl, f: FS, s: Seq<Item<L>>) -> bool { go::<L>(c, q, G { f, q: false }, s).q }
/// text and more text after it on the same line is one text
pub proof fn lemma_within<L: Lang>(c: Cfg, q: Dl, d: Doc, v: Seq<Tk>, f: FS)
    requires d.cur.len() > 0, d.pend == 0, v.len() > 0, rl::<L>(c, q, v).len() > 0, rl::<L>(c, q, d.cur).len() > 0
    ensures ({ let b = emit(c, f, rl::<L>(c, q, d.cur));
        emit(c, if d.sp { do_space(b) } else { b }, rl::<L>(c, q, v)) == emit(c, f, rl::<L>(c, q, d_text(d, v).cur)) })
{
    let a = rl::<L>(c, q, d.cur); let w = rl::<L>(c, q, v);
    let b = emit(c, f, a);
    let sp: Seq<Tk> = if d.sp { seq![Tk::C(' ')] } else { seq![] };
    assert(d_text(d, v).cur =~= d.cur + sp + v);
    lemma_rl_cat::<L>(c, q, d.cur + sp, v); lemma_rl_cat::<L>(c, q, d.cur, sp); lemma_rl_one::<L>(c, q, Tk::C(' '));
    let s: Seq<char> = if d.sp { seq![' '] } else { seq![] };
    assert(rl::<L>(c, q, sp) =~= s);
    lemma_emit(c, f, a, s + w); assert(a + (s + w) =~= a + s + w);
    let g = if d.sp { do_space(b) } else { b };
    assert(pad(c, g) =~= s) by { assert(rep(' ', 1) =~= seq![' ']); assert(rep(' ', 0) =~= seq![]); assert(rep('\t', 0) =~= seq![]); }
    assert(pad(c, b) =~= seq![]);
    lemma_ws(b.w, s, w);
    lemma_ws(b.w, s, seq![]);
    assert(ws_nls(b.w, c.nl, 0) == b.w);
    if s.len() == 0 { assert(s + w =~= w); }
}
/// the delimiters of strings are there
pub open spec fn dl_ok(q: Dl) -> bool { q.o.len() + q.c.len() > 0 }
/// text is appended as one literal
pub proof fn theorem_text<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool, x: ItemStr)
    requires rel::<L>(c, q, t, d, cl)
    ensures rel::<L>(c, q, op_item(t, Item::<L>::Literal(x)), d_text(d, chars(x@)), cl && untouched(d))
{
    let i = Item::<L>::Literal(x);
    let u = op_item(t, i);
    let y = u.items.skip(t.items.len() as int);
    lemma_item(t, i);
    lemma_rl_chars::<L>(c, q, x@);
    assert(y =~= seq![i]); assert(y.drop_last() =~= Seq::<Item<L>>::empty());
    assert(u.items.take(t.items.len() as int) =~= t.items);
    reveal_with_fuel(go, 3); reveal_with_fuel(plain, 3); reveal_with_fuel(qf, 3);
    lemma_text::<L>(c, q, t, d, cl, u, chars(x@));
}
/// quoted() adds the delimiters around it
pub proof fn theorem_quoted<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool, x: ItemStr)
    requires rel::<L>(c, q, t, d, cl), dl_ok(q)
    ensures rel::<L>(c, q, op_item(op_item(op_item(t, Item::<L>::OpenQuote(false)), Item::<L>::Literal(x)), Item::<L>::CloseQuote), d_text(d, seq![Tk::Q(x@)]), cl && untouched(d))
{
    let i = Item::<L>::OpenQuote(false); let j = Item::<L>::Literal(x); let k = Item::<L>::CloseQuote;
    let t1 = op_item(t, i); let t2 = op_item(t1, j); let u = op_item(t2, k);
    let y = u.items.skip(t.items.len() as int);
    lemma_item(t, i); lemma_item(t1, j); lemma_item(t2, k);
    lemma_rl_one::<L>(c, q, Tk::Q(x@));
    assert(y =~= seq![i, j, k]); assert(y.drop_last() =~= seq![i, j]); assert(seq![i, j].drop_last() =~= seq![i]); assert(seq![i].drop_last() =~= Seq::<Item<L>>::empty());
    assert(u.items.take(t.items.len() as int) =~= t.items);
    reveal_with_fuel(go, 5); reveal_with_fuel(plain, 5); reveal_with_fuel(qf, 5);
    let w = q.o + L::s_quoted(x@) + q.c;
    assert forall|f: FS| #[trigger] go::<L>(c, q, G { f, q: false }, y) == (G { f: emit(c, f, w), q: false }) by {
        lemma_emit(c, f, q.o, L::s_quoted(x@)); lemma_emit(c, f, q.o + L::s_quoted(x@), q.c);
    }
    lemma_text::<L>(c, q, t, d, cl, u, seq![Tk::Q(x@)]);
}
/// a stream that starts with text is appended as it is
pub proof fn lemma_append_plain<L: Lang>(t: TS<L>, s: Seq<Item<L>>)
    requires plain(s), nf(s), s.len() > 0 ==> is_text(s[0])
    ensures append_all(t, s) == (TS { items: t.items + s, last: t.last }), all_fit(t, s)
    decreases s.len()
{
    reveal_with_fuel(fits_wi, 2); reveal_with_fuel(sum_wi, 2);
    if s.len() > 0 {
        let p = s.drop_last(); let x = s.last();
        lemma_nf_prefix(s, s.len() - 1); assert(s.take(s.len() - 1) =~= p);
        lemma_append_plain(t, p);
        let a = t.items + p;
        assert((t.items + p).push(x) =~= t.items + s);
        if p.len() > 0 { assert(pair_ok(s[s.len() - 2], s[s.len() - 1])); assert(a.last() == s[s.len() - 2]); }
        assert(s[s.len() - 1] == x);
    } else { assert(t.items + s =~= t.items); }
}
/// a stream of text on one line is appended as that text; an empty one does nothing
pub proof fn theorem_add<L: Lang>(c: Cfg, q: Dl, t: TS<L>, d: Doc, cl: bool, u: TS<L>, e: Doc, ul: bool)
    requires rel::<L>(c, q, t, d, cl), rel::<L>(c, q, u, e, ul),
        e == d_empty() || ul && e.lines.len() == 0 && e.cur.len() > 0 && e.pend == 0 && !e.sp && e.ind == 0 && !e.held,
    ensures rel::<L>(c, q, append_all(t, u.items), d_add(d, e, ul), cl && untouched(d) && (d.cur.len() == 0 ==> ul)), all_fit(t, u.items)
{
    let s = u.items;
    let x = append_all(t, s);
    if e == d_empty() { assert(s.len() == 0); assert(d_add(d, e, ul) == d); }
    else {
        lemma_append_plain(t, s);
        lemma_append_all_inv(t, s);
        assert(x.items.take(t.items.len() as int) =~= t.items);
        assert(x.items.skip(t.items.len() as int) =~= s);
        assert(strip_wi(s) == s); assert(is_text(s.last()));
        lemma_text::<L>(c, q, t, d, cl, x, e.cur);
        assert(d_add(d, e, ul) == d_text(d, e.cur));
    }
}
/// what the formatter has written once it has gone over the stream
pub proof fn theorem_written<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, t: TS<L>, d: Doc, cl: bool)
    requires rel::<L>(c, dl::<L>(lc, lf), t, d, cl)
    ensures render::<L>(c, lc, lf, fresh(WS::Chars(Seq::empty())), t.items) == Some(st_of::<L>(c, dl::<L>(lc, lf), d))
{
    let s = t.items;
    lemma_run_go::<L>(c, lc, lf, fresh(WS::Chars(Seq::empty())), s, Seq::empty());
    assert(s + Seq::<Item<L>>::empty() =~= s);
}
fn main() {}
}
