
// ---- cursor over the items ----
impl core::ops::Deref for ItemStr {
    type Target = str;
@fn tokens::item_str|ItemStr|Deref|deref -> r nopub
    ensures r@ == self@,
@done
}
pub trait Parse<L: Lang> {
    type Output: ?Sized;
    spec fn is(item: Item<L>) -> bool;
    spec fn val(item: Item<L>, r: &Self::Output) -> bool;
    fn parse(item: &Item<L>) -> (r: FResult<&Self::Output>)
        ensures r is Ok <==> Self::is(*item), r is Ok ==> Self::val(*item, r->Ok_0);
    fn peek(item: &Item<L>) -> (r: bool)
        ensures r == Self::is(*item);
}
@type fmt::cursor::Literal
@type fmt::cursor::CloseEval
@type fmt::cursor::Cursor
impl<L: Lang> Parse<L> for Literal {
    type Output = str;
    open spec fn is(item: Item<L>) -> bool { item is Literal }
    open spec fn val(item: Item<L>, r: &str) -> bool { r@ == item->Literal_0@ }
@fn fmt::cursor|Literal|Parse<L>|peek -> r nopub
@done
@fn fmt::cursor|Literal|Parse<L>|parse -> r nopub
@done
}
impl<L: Lang> Parse<L> for CloseEval {
    type Output = ();
    open spec fn is(item: Item<L>) -> bool { item is CloseEval }
    open spec fn val(item: Item<L>, r: &()) -> bool { true }
@fn fmt::cursor|CloseEval|Parse<L>|peek -> r nopub
@done
@fn fmt::cursor|CloseEval|Parse<L>|parse -> r nopub
@done
}
impl<'a, L: Lang> Cursor<'a, L> {
@fn fmt::cursor|Cursor<L>||new -> r
    ensures r.items@ == items@,
@done
@fn fmt::cursor|Cursor<L>||next -> r
    ensures match r {
        Some(x) => old(self).items@.len() > 0 && *x == old(self).items@[0] && final(self).items@ == old(self).items@.skip(1),
        None => old(self).items@.len() == 0 && final(self).items@ == old(self).items@,
    },
@done
@fn fmt::cursor|Cursor<L>||peek -> r
    ensures r == (self.items@.len() > 0 && P::is(self.items@[0])),
@done
@fn fmt::cursor|Cursor<L>||peek1 -> r
    ensures r == (self.items@.len() > 1 && P::is(self.items@[1])),
@done
@fn fmt::cursor|Cursor<L>||parse -> r
    ensures r is Ok ==> old(self).items@.len() > 0 && P::val(old(self).items@[0], r->Ok_0) && final(self).items@ == old(self).items@.skip(1),
        r is Ok <==> old(self).items@.len() > 0 && P::is(old(self).items@[0]),
@done
}

@include fmt_render.vrs
pub open spec fn st_ok(st: Seq<Frame>) -> bool { st.len() > 0 && !st[0].end_on_eval }
pub proof fn lemma_sum_abs<L: Lang>(s: Seq<Item<L>>, k: int)
    requires 0 <= k <= s.len(), ensures 0 <= sum_abs(s.skip(k)) <= sum_abs(s),
    decreases s.len()
{
    if k == 0 { assert(s.skip(0) =~= s); if s.len() > 0 { lemma_sum_abs(s.skip(1), s.len() - 1); lemma_sum_abs(s.skip(1), 0); } }
    else { lemma_sum_abs(s.skip(1), k - 1); assert(s.skip(1).skip(k - 1) =~= s.skip(k)); }
}
/// what is left after rendering s is no longer than s and changes the indentation no further
pub proof fn lemma_run<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, s: Seq<Item<L>>, st: Seq<Frame>, inner: bool)
    ensures match run::<L>(c, lc, lf, f, s, st, inner) { Some((g, rest)) => rest.len() <= s.len() && 0 <= sum_abs(rest) <= sum_abs(s), None => true },
    decreases s.len(), 0int
{
    let r = run::<L>(c, lc, lf, f, s, st, inner);
    if s.len() == 0 || st.len() == 0 { if s.len() > 0 { lemma_sum_abs(s, 0); } assert(s.skip(0) =~= s); return; }
    if r is None { return; }
    let rest = r->Some_0.1;
    let t = s.skip(1);
    let h = st.last();
    lemma_sum_abs(t, 0); assert(t.skip(0) =~= t); lemma_sum_abs(s, 1);
    match s[0] {
        Item::Register(_, _) => lemma_run::<L>(c, lc, lf, f, t, st, inner),
        Item::Lang(_, x) => lemma_run::<L>(c, lc, lf, emit(c, f, L::s_item(&*x, lc, lf)), t, st, inner),
        Item::Literal(x) => lemma_run::<L>(c, lc, lf, emit(c, f, if h.in_quote { L::s_quoted(x@) } else { x@ }), t, st, inner),
        Item::Push => lemma_run::<L>(c, lc, lf, do_push(f), t, st, inner),
        Item::Line => lemma_run::<L>(c, lc, lf, do_line(f), t, st, inner),
        Item::Space => lemma_run::<L>(c, lc, lf, do_space(f), t, st, inner),
        Item::Indentation(n) => lemma_run::<L>(c, lc, lf, if n == 0 { f } else { do_indent(f, n as int) }, t, st, inner),
        Item::OpenQuote(e) => if !h.in_quote {
                lemma_run::<L>(c, lc, lf, emit(c, f, L::s_open(lc, lf, e)), t, top(st, Frame { in_quote: true, has_eval: e, ..h }), inner)
            } else {
                let (b, rest1) = nested_quote::<L>(c, lc, lf, t)->Some_0;
                lemma_run::<L>(c, lc, lf, emit(c, fresh(WS::Chars(Seq::empty())), L::s_open(lc, lf, false)), t, seq![frame0()], true);
                lemma_run::<L>(c, lc, lf, emit(c, f, L::s_quoted(b)), rest1, st, inner);
            },
        Item::CloseQuote => if !inner {
                lemma_run::<L>(c, lc, lf, emit(c, f, L::s_close(lc, lf, h.has_eval)), t, top(st, Frame { in_quote: false, has_eval: false, ..h }), inner)
            },
        Item::OpenEval => if t.len() > 1 && t[0] is Literal && t[1] is CloseEval {
                lemma_run::<L>(c, lc, lf, emit(c, f, L::s_eval_lit(lc, lf, t[0]->Literal_0@)), t.skip(1).skip(1), st, inner);
                lemma_sum_abs(t, 1); lemma_sum_abs(t.skip(1), 1);
            } else {
                lemma_run::<L>(c, lc, lf, emit(c, f, L::s_start_eval(lc, lf)), t, st.push(Frame { in_quote: false, has_eval: false, end_on_eval: true }), inner)
            },
        Item::CloseEval => lemma_run::<L>(c, lc, lf, emit(c, f, L::s_end_eval(lc, lf)), t, st.drop_last(), inner),
    }}
impl Default for Frame {
@fn fmt::formatter::format_cursor|Frame|Default|default -> r nopub
    ensures r == frame0(),
@done
}
/// the rest of crate::lang::Lang: rendering a whole file
pub trait LangFile: Lang {
    /// what a whole file renders to
    spec fn s_file(c: Cfg, config: &Self::Config, f: FS, items: Seq<Item<Self>>) -> Option<FS>;
    fn format_file(tokens: &Tokens<Self>, out: &mut Formatter<'_>, config: &Self::Config) -> (r: FResult)
        requires old(out).wf(), room(old(out).spaces as int, old(out).indent as int, tokens.items@),
        ensures later(*old(out), *final(out)),
            r is Ok ==> Self::s_file(old(out).cfg(), config, old(out).fs(), tokens.items@) == Some(final(out).fs()),
            Self::s_file(old(out).cfg(), config, old(out).fs(), tokens.items@) is Some && old(out).write.ok() ==> r is Ok;
}
