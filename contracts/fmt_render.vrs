// ---- what a stream of items renders to ----
@type fmt::formatter::format_cursor::Frame
pub open spec fn frame0() -> Frame { Frame { in_quote: false, has_eval: false, end_on_eval: false } }
/// the text of an inner quote, and the items after it; None: not a legal stream
pub open spec fn nested_quote<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, s: Seq<Item<L>>) -> Option<(Seq<char>, Seq<Item<L>>)>
    decreases s.len(), 1int
{
    match run::<L>(c, lc, lf, emit(c, fresh(WS::Chars(Seq::empty())), L::s_open(lc, lf, false)), s, seq![frame0()], true) {
        Some((g, rest)) => Some((emit(c, g, L::s_close(lc, lf, false)).w->Chars_0, rest)),
        None => None,
    }
}
pub open spec fn top(st: Seq<Frame>, f: Frame) -> Seq<Frame> { st.update(st.len() - 1, f) }
/// the state after rendering s, and the items left; None: not a legal stream
pub open spec fn run<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, s: Seq<Item<L>>, st: Seq<Frame>, inner: bool) -> Option<(FS, Seq<Item<L>>)>
    decreases s.len(), 0int
{
    if s.len() == 0 || st.len() == 0 { Some((f, s)) } else {
        let t = s.skip(1);
        let h = st.last();
        match s[0] {
            Item::Register(_, _) => run::<L>(c, lc, lf, f, t, st, inner),
            Item::Lang(_, x) => run::<L>(c, lc, lf, emit(c, f, L::s_item(&*x, lc, lf)), t, st, inner),
            Item::Literal(x) => run::<L>(c, lc, lf, emit(c, f, if h.in_quote { L::s_quoted(x@) } else { x@ }), t, st, inner),
            Item::Push => run::<L>(c, lc, lf, do_push(f), t, st, inner),
            Item::Line => run::<L>(c, lc, lf, do_line(f), t, st, inner),
            Item::Space => run::<L>(c, lc, lf, do_space(f), t, st, inner),
            Item::Indentation(n) => run::<L>(c, lc, lf, if n == 0 { f } else { do_indent(f, n as int) }, t, st, inner),
            Item::OpenQuote(e) => if !h.in_quote {
                    run::<L>(c, lc, lf, emit(c, f, L::s_open(lc, lf, e)), t, top(st, Frame { in_quote: true, has_eval: e, ..h }), inner)
                } else if e { None } else {
                    match nested_quote::<L>(c, lc, lf, t) {
                        Some((b, rest)) => if rest.len() < s.len() { run::<L>(c, lc, lf, emit(c, f, L::s_quoted(b)), rest, st, inner) } else { None },
                        None => None,
                    }
                },
            Item::CloseQuote => if inner { Some((f, t)) } else if h.in_quote {
                    run::<L>(c, lc, lf, emit(c, f, L::s_close(lc, lf, h.has_eval)), t, top(st, Frame { in_quote: false, has_eval: false, ..h }), inner)
                } else { None },
            Item::OpenEval => if !h.in_quote { None } else if t.len() > 1 && t[0] is Literal && t[1] is CloseEval {
                    run::<L>(c, lc, lf, emit(c, f, L::s_eval_lit(lc, lf, t[0]->Literal_0@)), t.skip(1).skip(1), st, inner)
                } else {
                    run::<L>(c, lc, lf, emit(c, f, L::s_start_eval(lc, lf)), t, st.push(Frame { in_quote: false, has_eval: false, end_on_eval: true }), inner)
                },
            Item::CloseEval => if h.end_on_eval {
                    run::<L>(c, lc, lf, emit(c, f, L::s_end_eval(lc, lf)), t, st.drop_last(), inner)
                } else { None },
        }
    }
}
pub open spec fn abs(n: int) -> int { if n < 0 { -n } else { n } }
pub open spec fn sum_abs<L: Lang>(s: Seq<Item<L>>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { (if s[0] is Indentation { abs(s[0]->Indentation_0 as int) } else { 0 }) + sum_abs(s.skip(1)) }
}
/// no counter overflows while rendering s
pub open spec fn room<L: Lang>(spaces: int, indent: int, s: Seq<Item<L>>) -> bool {
    spaces + s.len() <= MAXN && abs(indent) + sum_abs(s) <= i16::MAX
}

/// what a whole stream renders to
pub open spec fn render<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, s: Seq<Item<L>>) -> Option<FS> {
    match run::<L>(c, lc, lf, f, s, seq![frame0()], false) { Some((g, rest)) => Some(g), None => None }
}
pub open spec fn file_end(c: Cfg, f: Option<FS>) -> Option<FS> {
    match f { Some(g) => Some(FS { w: ws_end(g.w, c.nl), line: Whitespace::None, spaces: 0, indent: g.indent }), None => None }
}
