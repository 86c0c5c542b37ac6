
// ---- F02: text with strings, and expressions inside the strings, as a tree ----
pub enum Node<L: Lang> {
    /// text, whitespace, indentation or a language item
    Leaf(Item<L>),
    /// a string; the flag says whether it has expressions in it
    Str(bool, Seq<Part<L>>),
}
pub enum Part<L: Lang> {
    Leaf(Item<L>),
    /// a string in the string, of leaves
    Inner(Seq<Item<L>>),
    /// an expression in the string
    Eval(Seq<Node<L>>),
}
pub open spec fn is_leaf<L: Lang>(i: Item<L>) -> bool { !(i is OpenQuote) && !(i is CloseQuote) && !(i is OpenEval) && !(i is CloseEval) }
/// the items a tree is written as
pub open spec fn flat_node<L: Lang>(n: Node<L>) -> Seq<Item<L>> decreases n {
    match n { Node::Leaf(i) => seq![i], Node::Str(e, ps) => seq![Item::<L>::OpenQuote(e)] + flat_parts(ps) + seq![Item::<L>::CloseQuote] }
}
pub open spec fn flat_nodes<L: Lang>(ns: Seq<Node<L>>) -> Seq<Item<L>> decreases ns {
    if ns.len() == 0 { Seq::empty() } else { flat_node(ns[0]) + flat_nodes(ns.skip(1)) }
}
pub open spec fn flat_part<L: Lang>(p: Part<L>) -> Seq<Item<L>> decreases p {
    match p {
        Part::Leaf(i) => seq![i],
        Part::Inner(s) => seq![Item::<L>::OpenQuote(false)] + s + seq![Item::<L>::CloseQuote],
        Part::Eval(ns) => seq![Item::<L>::OpenEval] + flat_nodes(ns) + seq![Item::<L>::CloseEval],
    }
}
pub open spec fn flat_parts<L: Lang>(ps: Seq<Part<L>>) -> Seq<Item<L>> decreases ps {
    if ps.len() == 0 { Seq::empty() } else { flat_part(ps[0]) + flat_parts(ps.skip(1)) }
}
pub open spec fn leaves<L: Lang>(s: Seq<Item<L>>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_leaf(#[trigger] s[i]) }
pub open spec fn wf_node<L: Lang>(n: Node<L>) -> bool decreases n {
    match n { Node::Leaf(i) => is_leaf(i), Node::Str(e, ps) => wf_parts(ps) }
}
pub open spec fn wf_nodes<L: Lang>(ns: Seq<Node<L>>) -> bool decreases ns { ns.len() > 0 ==> wf_node(ns[0]) && wf_nodes(ns.skip(1)) }
pub open spec fn wf_part<L: Lang>(p: Part<L>) -> bool decreases p {
    match p { Part::Leaf(i) => is_leaf(i), Part::Inner(s) => leaves(s), Part::Eval(ns) => wf_nodes(ns) }
}
pub open spec fn wf_parts<L: Lang>(ps: Seq<Part<L>>) -> bool decreases ps { ps.len() > 0 ==> wf_part(ps[0]) && wf_parts(ps.skip(1)) }

/// what one leaf does, in a string (q) or outside
pub open spec fn do_leaf<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, i: Item<L>, q: bool) -> FS {
    match i {
        Item::Literal(x) => emit(c, f, if q { L::s_quoted(x@) } else { x@ }),
        Item::Lang(_, x) => emit(c, f, L::s_item(&*x, lc, lf)),
        Item::Push => do_push(f), Item::Line => do_line(f), Item::Space => do_space(f),
        Item::Indentation(n) => if n == 0 { f } else { do_indent(f, n as int) },
        _ => f,
    }
}
pub open spec fn do_leaves<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, s: Seq<Item<L>>) -> FS decreases s.len() {
    if s.len() == 0 { f } else { do_leaves::<L>(c, lc, lf, do_leaf::<L>(c, lc, lf, f, s[0], false), s.skip(1)) }
}
/// what a tree renders to: a string is its delimiters around its escaped parts, an expression in
/// it is the language's interpolation around unescaped text
pub open spec fn do_node<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, n: Node<L>) -> FS decreases n {
    match n {
        Node::Leaf(i) => do_leaf::<L>(c, lc, lf, f, i, false),
        Node::Str(e, ps) => emit(c, do_parts::<L>(c, lc, lf, emit(c, f, L::s_open(lc, lf, e)), ps), L::s_close(lc, lf, e)),
    }
}
pub open spec fn do_nodes<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, ns: Seq<Node<L>>) -> FS decreases ns {
    if ns.len() == 0 { f } else { do_nodes::<L>(c, lc, lf, do_node::<L>(c, lc, lf, f, ns[0]), ns.skip(1)) }
}
/// a string on its own, delimiters included, as text
pub open spec fn inner_text<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, s: Seq<Item<L>>) -> Seq<char> {
    emit(c, do_leaves::<L>(c, lc, lf, emit(c, fresh(WS::Chars(Seq::empty())), L::s_open(lc, lf, false)), s), L::s_close(lc, lf, false)).w->Chars_0
}
pub open spec fn do_part<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, p: Part<L>) -> FS decreases p {
    match p {
        Part::Leaf(i) => do_leaf::<L>(c, lc, lf, f, i, true),
        Part::Inner(s) => emit(c, f, L::s_quoted(inner_text::<L>(c, lc, lf, s))),
        Part::Eval(ns) => if ns.len() == 1 && ns[0] is Leaf && ns[0]->Leaf_0 is Literal {
                emit(c, f, L::s_eval_lit(lc, lf, ns[0]->Leaf_0->Literal_0@))
            } else {
                emit(c, do_nodes::<L>(c, lc, lf, emit(c, f, L::s_start_eval(lc, lf)), ns), L::s_end_eval(lc, lf))
            },
    }
}
pub open spec fn do_parts<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, ps: Seq<Part<L>>) -> FS decreases ps {
    if ps.len() == 0 { f } else { do_parts::<L>(c, lc, lf, do_part::<L>(c, lc, lf, f, ps[0]), ps.skip(1)) }
}

pub proof fn lemma_inner<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, s: Seq<Item<L>>, rest: Seq<Item<L>>)
    requires leaves(s),
    ensures run::<L>(c, lc, lf, f, s + seq![Item::<L>::CloseQuote] + rest, seq![frame0()], true) == Some((do_leaves::<L>(c, lc, lf, f, s), rest)),
    decreases s.len()
{
    let all = s + seq![Item::<L>::CloseQuote] + rest;
    if s.len() == 0 { assert(all[0] is CloseQuote); assert(all.skip(1) =~= rest); }
    else {
        let t = s.skip(1);
        assert(all[0] == s[0]); assert(is_leaf(s[0]));
        assert(all.skip(1) =~= t + seq![Item::<L>::CloseQuote] + rest);
        lemma_inner::<L>(c, lc, lf, do_leaf::<L>(c, lc, lf, f, s[0], false), t, rest);
    }
}
pub open spec fn st_out(st: Seq<Frame>) -> bool { st.len() > 0 && !st.last().in_quote && !st.last().has_eval }
/// first item of a tree of nodes, when it is one item of text: the tree is that text
pub proof fn lemma_single<L: Lang>(ns: Seq<Node<L>>, rest: Seq<Item<L>>)
    requires wf_nodes(ns), rest.len() > 0, rest[0] is CloseEval,
    ensures ({ let t = flat_nodes(ns) + rest;
        (t.len() > 1 && t[0] is Literal && t[1] is CloseEval) == (ns.len() == 1 && ns[0] is Leaf && ns[0]->Leaf_0 is Literal) }),
{
    let t = flat_nodes(ns) + rest;
    reveal_with_fuel(wf_nodes, 3);
    if ns.len() == 0 { assert(t =~= rest); }
    else {
        let u = ns.skip(1);
        let a = flat_node(ns[0]);
        assert(t =~= a + (flat_nodes(u) + rest));
        assert(a.len() > 0 && t[0] == a[0]);
        if ns[0] is Leaf {
            assert(a.len() == 1);
            assert(t[1] == (flat_nodes(u) + rest)[0]);
            if u.len() == 0 { assert(flat_nodes(u) + rest =~= rest); }
            else { assert(wf_node(u[0])); assert(flat_node(u[0]).len() > 0); assert((flat_nodes(u) + rest)[0] == flat_node(u[0])[0]); }
        }
    }
}
/// F02: the items of a tree render to what the tree renders to
pub proof fn theorem_nodes<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, ns: Seq<Node<L>>, rest: Seq<Item<L>>, st: Seq<Frame>)
    requires wf_nodes(ns), st_out(st),
    ensures run::<L>(c, lc, lf, f, flat_nodes(ns) + rest, st, false) == run::<L>(c, lc, lf, do_nodes::<L>(c, lc, lf, f, ns), rest, st, false),
    decreases ns
{
    if ns.len() == 0 { assert(flat_nodes(ns) + rest =~= rest); }
    else {
        let u = ns.skip(1); let more = flat_nodes(u) + rest;
        assert(flat_nodes(ns) + rest =~= flat_node(ns[0]) + more);
        lemma_node::<L>(c, lc, lf, f, ns[0], more, st);
        theorem_nodes::<L>(c, lc, lf, do_node::<L>(c, lc, lf, f, ns[0]), u, rest, st);
    }
}
pub proof fn lemma_node<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, n: Node<L>, rest: Seq<Item<L>>, st: Seq<Frame>)
    requires wf_node(n), st_out(st),
    ensures run::<L>(c, lc, lf, f, flat_node(n) + rest, st, false) == run::<L>(c, lc, lf, do_node::<L>(c, lc, lf, f, n), rest, st, false),
    decreases n
{
    let all = flat_node(n) + rest;
    let h = st.last();
    match n {
        Node::Leaf(i) => { assert(all[0] == i); assert(all.skip(1) =~= rest); }
        Node::Str(e, ps) => {
            let more = seq![Item::<L>::CloseQuote] + rest;
            let st1 = top(st, Frame { in_quote: true, has_eval: e, ..h });
            let f1 = emit(c, f, L::s_open(lc, lf, e));
            assert(all[0] == Item::<L>::OpenQuote(e));
            assert(all.skip(1) =~= flat_parts(ps) + more);
            lemma_parts::<L>(c, lc, lf, f1, ps, more, st1);
            assert(more[0] is CloseQuote); assert(more.skip(1) =~= rest);
            assert(top(st1, Frame { in_quote: false, has_eval: false, ..st1.last() }) =~= st);
        }
    }
}
pub proof fn lemma_parts<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, ps: Seq<Part<L>>, rest: Seq<Item<L>>, st: Seq<Frame>)
    requires wf_parts(ps), st.len() > 0, st.last().in_quote,
    ensures run::<L>(c, lc, lf, f, flat_parts(ps) + rest, st, false) == run::<L>(c, lc, lf, do_parts::<L>(c, lc, lf, f, ps), rest, st, false),
    decreases ps
{
    if ps.len() == 0 { assert(flat_parts(ps) + rest =~= rest); }
    else {
        let u = ps.skip(1); let more = flat_parts(u) + rest;
        assert(flat_parts(ps) + rest =~= flat_part(ps[0]) + more);
        lemma_part::<L>(c, lc, lf, f, ps[0], more, st);
        lemma_parts::<L>(c, lc, lf, do_part::<L>(c, lc, lf, f, ps[0]), u, rest, st);
    }
}
pub proof fn lemma_part<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, f: FS, p: Part<L>, rest: Seq<Item<L>>, st: Seq<Frame>)
    requires wf_part(p), st.len() > 0, st.last().in_quote,
    ensures run::<L>(c, lc, lf, f, flat_part(p) + rest, st, false) == run::<L>(c, lc, lf, do_part::<L>(c, lc, lf, f, p), rest, st, false),
    decreases p
{
    let all = flat_part(p) + rest;
    match p {
        Part::Leaf(i) => { assert(all[0] == i); assert(all.skip(1) =~= rest); }
        Part::Inner(s) => {
            assert(all[0] == Item::<L>::OpenQuote(false));
            assert(all.skip(1) =~= s + seq![Item::<L>::CloseQuote] + rest);
            lemma_inner::<L>(c, lc, lf, emit(c, fresh(WS::Chars(Seq::empty())), L::s_open(lc, lf, false)), s, rest);
            assert(nested_quote::<L>(c, lc, lf, all.skip(1)) == Some((inner_text::<L>(c, lc, lf, s), rest)));
            assert(run::<L>(c, lc, lf, f, flat_part(p) + rest, st, false) == run::<L>(c, lc, lf, do_part::<L>(c, lc, lf, f, p), rest, st, false));
        }
        Part::Eval(ns) => {
            let more = seq![Item::<L>::CloseEval] + rest;
            assert(all[0] is OpenEval);
            assert(all.skip(1) =~= flat_nodes(ns) + more);
            assert(more[0] is CloseEval); assert(more.skip(1) =~= rest);
            lemma_single(ns, more);
            let t = all.skip(1);
            if t.len() > 1 && t[0] is Literal && t[1] is CloseEval {
                assert(ns.skip(1).len() == 0);
                assert(flat_nodes(ns) =~= seq![ns[0]->Leaf_0]);
                assert(t.skip(1).skip(1) =~= rest);
                assert(run::<L>(c, lc, lf, f, flat_part(p) + rest, st, false) == run::<L>(c, lc, lf, do_part::<L>(c, lc, lf, f, p), rest, st, false));
            } else {
                let st1 = st.push(Frame { in_quote: false, has_eval: false, end_on_eval: true });
                theorem_nodes::<L>(c, lc, lf, emit(c, f, L::s_start_eval(lc, lf)), ns, more, st1);
                assert(st1.drop_last() =~= st);
                assert(run::<L>(c, lc, lf, f, flat_part(p) + rest, st, false) == run::<L>(c, lc, lf, do_part::<L>(c, lc, lf, f, p), rest, st, false));
            }
        }
    }
}

// ---- F03: the kind of sink changes nothing but how the text is kept ----
pub open spec fn join(l: Seq<Seq<char>>, c: Seq<char>, nl: Seq<char>) -> Seq<char> decreases l.len() {
    if l.len() == 0 { c } else { join(l.drop_last(), l.last() + nl + c, nl) }
}
pub open spec fn txt(w: WS, nl: Seq<char>) -> Seq<char> { match w { WS::Chars(c) => c, WS::Lines(l, c) => join(l, c, nl), WS::Bytes(b) => Seq::empty() } }
/// the two sinks hold the same text
pub open spec fn same(a: WS, b: WS, nl: Seq<char>) -> bool {
    a is Chars && match b { WS::Bytes(b) => b == encode_utf8(a->Chars_0), _ => a->Chars_0 == txt(b, nl) }
}
pub open spec fn same_fs(a: FS, b: FS, nl: Seq<char>) -> bool { same(a.w, b.w, nl) && a.line == b.line && a.spaces == b.spaces && a.indent == b.indent }
pub proof fn lemma_join(l: Seq<Seq<char>>, c: Seq<char>, s: Seq<char>, nl: Seq<char>)
    ensures join(l, c, nl) + s == join(l, c + s, nl), decreases l.len()
{
    if l.len() > 0 { lemma_join(l.drop_last(), l.last() + nl + c, s, nl); assert(l.last() + nl + c + s =~= l.last() + nl + (c + s)); }
}
pub proof fn lemma_same(a: WS, b: WS, s: Seq<char>, nl: Seq<char>)
    requires same(a, b, nl), ensures same(ws_str(a, s), ws_str(b, s), nl), same(ws_nl(a, nl), ws_nl(b, nl), nl)
{
    match b {
        WS::Bytes(x) => { encode_utf8_concat(a->Chars_0, s); encode_utf8_concat(a->Chars_0, nl); }
        WS::Lines(l, c) => { lemma_join(l, c, s, nl); lemma_join(l, c, nl, nl); assert(l.push(c).drop_last() =~= l); assert(c + nl + Seq::<char>::empty() =~= c + nl); }
        WS::Chars(c) => {}
    }
}
pub proof fn lemma_same_nls(a: WS, b: WS, nl: Seq<char>, k: nat)
    requires same(a, b, nl), ensures same(ws_nls(a, nl, k), ws_nls(b, nl, k), nl), decreases k
{
    if k > 0 { lemma_same_nls(a, b, nl, (k - 1) as nat); lemma_same(ws_nls(a, nl, (k - 1) as nat), ws_nls(b, nl, (k - 1) as nat), Seq::empty(), nl); }
}
pub proof fn lemma_same_emit(c: Cfg, a: FS, b: FS, s: Seq<char>)
    requires same_fs(a, b, c.nl), ensures same_fs(emit(c, a, s), emit(c, b, s), c.nl)
{
    lemma_same_nls(a.w, b.w, c.nl, brks(a.line));
    lemma_same(ws_nls(a.w, c.nl, brks(a.line)), ws_nls(b.w, c.nl, brks(a.line)), pad(c, a), c.nl);
    lemma_same(flushed(c, a).w, flushed(c, b).w, s, c.nl);
}
pub proof fn lemma_same_ops(a: FS, b: FS, n: int, nl: Seq<char>)
    requires same_fs(a, b, nl),
    ensures same_fs(do_push(a), do_push(b), nl), same_fs(do_line(a), do_line(b), nl), same_fs(do_space(a), do_space(b), nl), same_fs(do_indent(a, n), do_indent(b, n), nl),
{}
/// F03: rendering into a string, a list of lines and a byte sink gives the same text, or fails for all
pub proof fn theorem_writers_agree<L: Lang>(c: Cfg, lc: &L::Config, lf: &L::Format, a: FS, b: FS, s: Seq<Item<L>>, st: Seq<Frame>, inner: bool)
    requires same_fs(a, b, c.nl),
    ensures match (run::<L>(c, lc, lf, a, s, st, inner), run::<L>(c, lc, lf, b, s, st, inner)) {
        (Some((x, r)), Some((y, q))) => same_fs(x, y, c.nl) && r == q, (None, None) => true, _ => false },
    decreases s.len()
{
    hide(emit); hide(same_fs); hide(do_push); hide(do_line); hide(do_space); hide(do_indent);
    if s.len() == 0 || st.len() == 0 { return; }
    let t = s.skip(1);
    let h = st.last();
    match s[0] {
        Item::OpenQuote(e) => if !h.in_quote {
                let o = L::s_open(lc, lf, e); lemma_same_emit(c, a, b, o);
                theorem_writers_agree::<L>(c, lc, lf, emit(c, a, o), emit(c, b, o), t, top(st, Frame { in_quote: true, has_eval: e, ..h }), inner);
            } else if !e {
                match nested_quote::<L>(c, lc, lf, t) {
                    Some((x, rest)) => if rest.len() < s.len() {
                        let o = L::s_quoted(x); lemma_same_emit(c, a, b, o);
                        theorem_writers_agree::<L>(c, lc, lf, emit(c, a, o), emit(c, b, o), rest, st, inner);
                    },
                    None => {}
                }
            },
        Item::CloseQuote => if !inner && h.in_quote {
                let o = L::s_close(lc, lf, h.has_eval); lemma_same_emit(c, a, b, o);
                theorem_writers_agree::<L>(c, lc, lf, emit(c, a, o), emit(c, b, o), t, top(st, Frame { in_quote: false, has_eval: false, ..h }), inner);
            },
        Item::OpenEval => if h.in_quote {
                if t.len() > 1 && t[0] is Literal && t[1] is CloseEval {
                    let o = L::s_eval_lit(lc, lf, t[0]->Literal_0@); lemma_same_emit(c, a, b, o);
                    theorem_writers_agree::<L>(c, lc, lf, emit(c, a, o), emit(c, b, o), t.skip(1).skip(1), st, inner);
                } else {
                    let o = L::s_start_eval(lc, lf); lemma_same_emit(c, a, b, o);
                    theorem_writers_agree::<L>(c, lc, lf, emit(c, a, o), emit(c, b, o), t, st.push(Frame { in_quote: false, has_eval: false, end_on_eval: true }), inner);
                }
            },
        Item::CloseEval => if h.end_on_eval {
                let o = L::s_end_eval(lc, lf); lemma_same_emit(c, a, b, o);
                theorem_writers_agree::<L>(c, lc, lf, emit(c, a, o), emit(c, b, o), t, st.drop_last(), inner);
            },
        Item::Literal(x) => {
            let o = if h.in_quote { L::s_quoted(x@) } else { x@ }; lemma_same_emit(c, a, b, o);
            theorem_writers_agree::<L>(c, lc, lf, emit(c, a, o), emit(c, b, o), t, st, inner);
        }
        Item::Lang(_, x) => {
            let o = L::s_item(&*x, lc, lf); lemma_same_emit(c, a, b, o);
            theorem_writers_agree::<L>(c, lc, lf, emit(c, a, o), emit(c, b, o), t, st, inner);
        }
        Item::Register(_, _) => theorem_writers_agree::<L>(c, lc, lf, a, b, t, st, inner),
        Item::Push => { lemma_same_ops(a, b, 0, c.nl); theorem_writers_agree::<L>(c, lc, lf, do_push(a), do_push(b), t, st, inner); }
        Item::Line => { lemma_same_ops(a, b, 0, c.nl); theorem_writers_agree::<L>(c, lc, lf, do_line(a), do_line(b), t, st, inner); }
        Item::Space => { lemma_same_ops(a, b, 0, c.nl); theorem_writers_agree::<L>(c, lc, lf, do_space(a), do_space(b), t, st, inner); }
        Item::Indentation(n) => {
            lemma_same_ops(a, b, n as int, c.nl);
            if n == 0 { theorem_writers_agree::<L>(c, lc, lf, a, b, t, st, inner); } else { theorem_writers_agree::<L>(c, lc, lf, do_indent(a, n as int), do_indent(b, n as int), t, st, inner); }
        }
    }
}
