@include mac_core.vrs
@type m@static_buffer::StaticBuffer
@type m@ast::ControlKind
@type m@ast::Control
@type m@ast::MatchArm
@type m@ast::Ast
@type m@encoder::Encoder

// ---- whitespace ----
pub open spec fn op_space(x: Ctxt) -> Op { Op::Code(call(x, "space"@, tk![])) }
pub open spec fn op_push(x: Ctxt) -> Op { Op::Code(call(x, "push"@, tk![])) }
pub open spec fn op_line(x: Ctxt) -> Op { Op::Code(call(x, "line"@, tk![])) }
pub open spec fn op_indent(x: Ctxt) -> Op { Op::Code(call(x, "indent"@, tk![])) }
pub open spec fn op_unindent(x: Ctxt) -> Op { Op::Code(call(x, "unindent"@, tk![])) }
/// positions
pub open spec fn rising(l: Seq<nat>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> l[i] < l[j] }
/// the level, below the topmost one, that starts in a column
pub open spec fn level(l: Seq<nat>, c: nat) -> Option<nat> decreases l.len() {
    if l.len() == 0 { None } else if l.last() == c { Some((l.len() - 1) as nat) } else { level(l.drop_last(), c) }
}
/// k times out one level, each followed by an empty line if there is one in the quote
pub open spec fn outs(x: Ctxt, k: nat, blank: bool) -> Seq<Op> decreases k {
    if k == 0 { Seq::<Op>::empty() } else if blank { outs(x, (k - 1) as nat, blank).push(op_unindent(x)).push(op_line(x)) } else { outs(x, (k - 1) as nat, blank).push(op_unindent(x)) }
}
/// What stands between two items of a quote, from where the first ends to where the second starts, given the columns in
/// which the enclosing levels of indentation start; None if the second one starts in none of them.
/// `lone`: nothing came before, or nothing comes after: then a line left of the only level belongs to it.
pub open spec fn ws(x: Ctxt, l: Seq<nat>, lone: bool, from: LineColumn, to: LineColumn) -> Option<(Seq<Op>, Seq<nat>)> {
    let c = to.column as nat;
    let blank = to.line - from.line > 1;
    if from.line == to.line { Some((if from.column < to.column { Seq::<Op>::empty().push(op_space(x)) } else { Seq::<Op>::empty() }, l)) }
    else if l.last() < c { Some((if blank { Seq::<Op>::empty().push(op_indent(x)).push(op_line(x)) } else { Seq::<Op>::empty().push(op_indent(x)) }, l.push(c))) }
    else if l.last() == c { Some((Seq::<Op>::empty().push(if blank { op_line(x) } else { op_push(x) }), l)) }
    else {
        match level(l.drop_last(), c) {
            Some(k) => Some((outs(x, (l.len() - 1 - k) as nat, blank), l.take(k as int + 1))),
            None => if l.len() == 1 && lone { Some((Seq::<Op>::empty().push(Op::Code(tk![])), seq![c])) } else { None },
        }
    }
}
pub proof fn lemma_level(l: Seq<nat>, c: nat)
    ensures level(l, c) is Some ==> level(l, c)->0 < l.len() && l[level(l, c)->0 as int] == c, level(l, c) is None ==> !l.contains(c)
    decreases l.len()
{
    if l.len() > 0 && l.last() != c {
        lemma_level(l.drop_last(), c);
        if l.contains(c) && level(l, c) is None { let i = choose|i: int| 0 <= i < l.len() && l[i] == c; assert(l.drop_last()[i] == c); }
    }
}

pub proof fn lemma_ws_rising(x: Ctxt, l: Seq<nat>, lone: bool, from: LineColumn, to: LineColumn)
    requires rising(l), l.len() > 0
    ensures match ws(x, l, lone, from, to) { Some((ops, m)) => rising(m) && m.len() > 0 && (from.line != to.line ==> m.last() == to.column), None => true }
{
    lemma_level(l.drop_last(), to.column as nat);
    if from.line != to.line && l.last() < to.column { let m = l.push(to.column as nat); assert forall|i: int, j: int| 0 <= i < j < m.len() implies m[i] < m[j] by { if j == l.len() { assert(l[i] <= l[l.len() - 1]); } } }
}
// ---- the state of the encoder ----
/// quote: iterating a vector in a repetition yields its items in order
#[verifier::external_body]
pub struct AttrIter<'a> { v: &'a Vec<Attribute> }
impl<'a> AttrIter<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Attribute>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Attribute>)
        ensures match r { Some(a) => old(self).rest().len() > 0 && *a == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 }
    { unimplemented!() }
}
pub trait RepIter { spec fn rep(&self) -> Seq<Attribute>; fn quote_into_iter<'a>(&'a self) -> (r: AttrIter<'a>) ensures r.rest() == self.rep(); }
impl RepIter for Vec<Attribute> { open spec fn rep(&self) -> Seq<Attribute> { self@ }
    #[verifier::external_body] fn quote_into_iter<'a>(&'a self) -> (r: AttrIter<'a>) { unimplemented!() } }
pub struct RepInterp<T>(pub T);
impl<T: ToTokens> ToTokens for RepInterp<T> { open spec fn toks(&self) -> Code { self.0.toks() }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
pub open spec fn cols(v: Seq<(usize, Option<Span>)>) -> Seq<nat> { v.map_values(|p: (usize, Option<Span>)| p.0 as nat) }
pub broadcast proof fn lemma_cols(v: Seq<(usize, Option<Span>)>, p: (usize, Option<Span>)) ensures #[trigger] cols(v.push(p)) == cols(v).push(p.0 as nat) { assert(cols(v.push(p)) =~= cols(v).push(p.0 as nat)); }
impl<'a> Encoder<'a> {
    pub open spec fn out(&self) -> Out { (self.output@, self.item_buffer.buffer@) }
    /// the columns of the enclosing levels, the current one last
    pub open spec fn levels(&self) -> Seq<nat> {
        match (self.span_start, self.last_start_column, self.last) {
            (Some(s), _, _) => cols(self.indents@).push(s.column as nat),
            (_, Some(c), _) => cols(self.indents@).push(c as nat),
            (_, _, Some(l)) => cols(self.indents@).push(l.start.column as nat),
            _ => cols(self.indents@),
        }
    }
    /// where what has been encoded ends
    pub open spec fn at(&self) -> Option<LineColumn> {
        match (self.span_start, self.last) { (Some(s), _) => Some(s), (_, Some(l)) => Some(l.end), _ => None }
    }
    pub open spec fn inv(&self) -> bool {
        &&& rising(self.levels())
        &&& self.item_buffer.cx == self.cx
        &&& self.span_start is Some ==> self.last is None && self.last_start_column is None && self.indents@.len() == 0
        &&& self.at() is None ==> self.indents@.len() == 0 && self.last_start_column is None
    }
    pub open spec fn fresh(&self) -> bool { self.last is None }
    pub open spec fn same_place(&self, o: &Self) -> bool {
        self.cx == o.cx && self.span_start == o.span_start && self.span_end == o.span_end && self.last == o.last
            && self.last_start_column == o.last_start_column && self.indents@ == o.indents@ && self.item_buffer.cx == o.item_buffer.cx
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.same_place(o) && self.requirements == o.requirements }
}
/// moving on to an item (or to the end)
pub open spec fn go(x: Ctxt, l: Seq<nat>, at: Option<LineColumn>, lone: bool, to: LineColumn) -> Option<(Seq<Op>, Seq<nat>)> {
    match at { None => Some((Seq::<Op>::empty(), seq![to.column as nat])), Some(f) => ws(x, l, lone, f, to) }
}

/// moving on to the end
pub open spec fn go_end(x: Ctxt, l: Seq<nat>, at: Option<LineColumn>, end: Option<LineColumn>) -> Option<(Seq<Op>, Seq<nat>)> {
    match (end, at) { (Some(to), Some(f)) => ws(x, l, true, f, to), _ => Some((Seq::<Op>::empty(), l)) }
}
pub open spec fn below(l: Seq<nat>) -> nat { if l.len() > 0 { (l.len() - 1) as nat } else { 0 } }
/// the end: every level that is still open is closed
pub open spec fn fin(x: Ctxt, l: Seq<nat>, at: Option<LineColumn>, end: Option<LineColumn>) -> Option<Seq<Op>> {
    match go_end(x, l, at, end) { Some((ops, m)) => Some(ops.push(Op::Code(tk![])) + outs(x, below(m), false)), None => None }
}
// ---- what an item adds ----
pub open spec fn attrs(a: Seq<Attribute>) -> Code decreases a.len() { if a.len() == 0 { tk![] } else { a[0].code() + attrs(a.drop_first()) } }
pub open spec fn code_of(o: Option<TokenStream>) -> Option<Code> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn arm(a: MatchArm) -> Code { arm_code(a.attr@, a.pattern, a.condition, a.block@) }
pub open spec fn arm_code(a: Seq<Attribute>, p: Pat, c: Option<Expr>, b: Code) -> Code {
    attrs(a) + p.code() + (match c { Some(c) => tk![id("if")] + c.code(), None => tk![] }) + tk![Tk::P('>'), brace(b), Tk::P(',')]
}
pub open spec fn arms_(a: Seq<MatchArm>) -> Code decreases a.len() { if a.len() == 0 { tk![] } else { arms_(a.drop_last()) + arm(a.last()) } }
pub open spec fn looped(p: Pat, e: Expr, j: Option<Code>, s: Code) -> Code {
    match j {
        None => tk![id("for")] + p.code() + tk![id("in")] + e.code() + tk![brace(s)],
        // { let mut it = IntoIterator::into_iter(e).peekable(); while let Some(p) = it.next() { s if it.peek().is_some() { j } } }
        Some(j) => tk![brace(
            tk![id("let"), id("mut"), id("__it"), Tk::P('='), id("IntoIterator"), Tk::P(':'), id("into_iter"), paren(e.code()), Tk::P('.'), id("peekable"), paren(tk![]), Tk::P(';'),
                id("while"), id("let"), id("Some"), paren(p.code()), Tk::P('='), id("__it"), Tk::P('.'), id("next"), paren(tk![]),
                brace(s + tk![id("if"), id("__it"), Tk::P('.'), id("peek"), paren(tk![]), Tk::P('.'), id("is_some"), paren(tk![]), brace(j)])])],
    }
}
pub open spec fn control(x: Ctxt, k: ControlKind) -> Op { match k { ControlKind::Space => op_space(x), ControlKind::Push => op_push(x), ControlKind::Line => op_line(x) } }
pub open spec fn opens(d: Delimiter) -> char { match d { Delimiter::Parenthesis => '(', Delimiter::Brace => '{', Delimiter::Bracket => '[' } }
pub open spec fn closes(d: Delimiter) -> char { match d { Delimiter::Parenthesis => ')', Delimiter::Brace => '}', Delimiter::Bracket => ']' } }
pub open spec fn cond(c: Expr, t: Code, e: Option<Code>) -> Code {
    tk![id("if")] + c.code() + tk![brace(t)] + (match e { Some(s) => tk![id("else"), brace(s)], None => tk![] })
}
pub open spec fn op_of(x: Ctxt, a: Ast) -> Op {
    match a {
        Ast::Tree { tt } => Op::Lit(tt.text()),
        Ast::String { has_eval, stream } => Op::Code(open_(x, has_eval) + stream@ + close_(x)),
        Ast::Quoted { s } => Op::Code(open_(x, false) + append(x, item(x, "ItemStr"@, "Static"@).push(paren(tk![Tk::S(s.val())]))) + close_(x)),
        Ast::Literal { string } => Op::Lit(string@),
        Ast::DelimiterOpen { delimiter } => Op::Lit(seq![opens(delimiter)]),
        Ast::DelimiterClose { delimiter } => Op::Lit(seq![closes(delimiter)]),
        Ast::Control { control } => control_op(x, control),
        Ast::EvalIdent { ident } => Op::Code(append(x, ident.code())),
        Ast::Eval { expr } => Op::Code(append(x, expr.code())),
        Ast::Scope { binding, content } => scope(x, binding, content@),
        Ast::Loop { pattern, expr, join, stream } => Op::Code(looped(*pattern, *expr, code_of(join), stream@)),
        Ast::Condition { condition, then_branch, else_branch } => Op::Code(cond(condition, then_branch@, code_of(else_branch))),
        Ast::Let { name, expr } => Op::Code(tk![id("let")] + name.code() + tk![Tk::P('=')] + expr.code() + tk![Tk::P(';')]),
        Ast::Match { condition, arms } => Op::Code(tk![id("match")] + condition.code() + tk![brace(arms_(arms@))]),
    }
}
pub open spec fn control_op(x: Ctxt, c: Control) -> Op { control(x, c.kind) }
pub open spec fn scope(x: Ctxt, b: Option<Ident>, c: Code) -> Op {
    match b {
        // { let b = &mut *receiver; c }
        Some(b) => Op::Code(tk![brace(tk![id("let")] + b.code() + tk![Tk::P('='), Tk::P('&'), id("mut"), Tk::P('*')] + x.receiver.code() + tk![Tk::P(';')] + c)]),
        None => Op::Quiet(tk![brace(c)]),
    }
}
/// does an item need a language that can evaluate in strings?
pub open spec fn evals(a: Ast) -> bool { a is String && a->String_has_eval }

impl<'a> StaticBuffer<'a> {
@fn m@static_buffer|StaticBuffer||new -> r
    ensures r.cx == cx, r.buffer@.len() == 0
@done
@fn m@static_buffer|StaticBuffer||push
    ensures final(self).cx == old(self).cx, final(self).buffer@ == old(self).buffer@.push(c)
@done
@fn m@static_buffer|StaticBuffer||push_str
    ensures final(self).cx == old(self).cx, final(self).buffer@ == old(self).buffer@ + s@
@done
@fn m@static_buffer|StaticBuffer||flush
    ensures final(self).cx == old(self).cx, final(self).buffer@.len() == 0, final(tokens)@ =~= old(tokens)@ + wait_(*old(self).cx, old(self).buffer@)
@done
}
impl Delimiter {
@fn m@ast|Delimiter||encode_open
    ensures final(output).cx == old(output).cx, final(output).buffer@ =~= old(output).buffer@ + seq![opens(self)]
@done
@fn m@ast|Delimiter||encode_close
    ensures final(output).cx == old(output).cx, final(output).buffer@ =~= old(output).buffer@ + seq![closes(self)]
@done
}
impl Control {
@fn m@ast|Control||from_char -> r
    ensures r is Some ==> (match r->0.kind { ControlKind::Space => c == ' ', ControlKind::Push => c == '\r', ControlKind::Line => c == '\n' }),
        r is None ==> c != ' ' && c != '\r' && c != '\n'
@done
}
impl Requirements {
@fn m@requirements|Requirements||merge_with
    ensures final(self).lang_supports_eval == (old(self).lang_supports_eval || other.lang_supports_eval)
@done
@fn m@requirements|Requirements||into_check -> r
    ensures r@ =~= if self.lang_supports_eval { call(Ctxt { receiver: *receiver, module: arbitrary() }, "lang_supports_eval"@, tk![]) } else { tk![] }
@done
@fn m@requirements|Requirements|Default|default -> r
    ensures !r.lang_supports_eval
@done
}
impl<'a> Encoder<'a> {
@fn m@encoder|Encoder||new -> r
    ensures r.inv(), r.cx == cx, r.span_end == span_end, r.span_start == span_start, r.fresh(), r.at() == span_start, r.out() == (Seq::<Tk>::empty(), Seq::<char>::empty()), !r.requirements.lang_supports_eval,
        r.levels() =~= (match span_start { Some(s) => seq![s.column as nat], None => seq![] })
@done
@fn m@encoder|Encoder||encode_open_delimiter
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), Op::Lit(seq![opens(d)]))
@done
@fn m@encoder|Encoder||encode_close_delimiter
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), Op::Lit(seq![closes(d)]))
@done
@fn m@encoder|Encoder||encode_literal
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), Op::Lit(string@))
@done
@fn m@encoder|Encoder||encode_string
    requires old(self).item_buffer.cx == old(self).cx
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), op_of(*old(self).cx, Ast::String { has_eval, stream }))
@done
@fn m@encoder|Encoder||encode_quoted
    requires old(self).item_buffer.cx == old(self).cx
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), op_of(*old(self).cx, Ast::Quoted { s }))
@done
@fn m@encoder|Encoder||encode_control
    requires old(self).item_buffer.cx == old(self).cx
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), op_of(*old(self).cx, Ast::Control { control }))
@done
@fn m@encoder|Encoder||encode_scope
    requires old(self).item_buffer.cx == old(self).cx
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), op_of(*old(self).cx, Ast::Scope { binding, content }))
@done
@fn m@encoder|Encoder||encode_eval_ident
    requires old(self).item_buffer.cx == old(self).cx
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), op_of(*old(self).cx, Ast::EvalIdent { ident }))
@done
@fn m@encoder|Encoder||encode_eval
    requires old(self).item_buffer.cx == old(self).cx
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), op_of(*old(self).cx, Ast::Eval { expr }))
@done
@fn m@encoder|Encoder||encode_repeat
    requires old(self).item_buffer.cx == old(self).cx
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), Op::Code(looped(pattern, expr, code_of(join), stream@)))
@done
@fn m@encoder|Encoder||encode_condition
    requires old(self).item_buffer.cx == old(self).cx
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), op_of(*old(self).cx, Ast::Condition { condition, then_branch, else_branch }))
@done
@fn m@encoder|Encoder||encode_let
    requires old(self).item_buffer.cx == old(self).cx
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), op_of(*old(self).cx, Ast::Let { name, expr }))
@done
@fn m@encoder|Encoder||encode_match
    requires old(self).item_buffer.cx == old(self).cx
    ensures final(self).same(old(self)), final(self).out() == run1(*old(self).cx, old(self).out(), op_of(*old(self).cx, Ast::Match { condition, arms }))
@subst let has_iter = HasIterator::<false>; => 
@subst let(mut attr, i) = attr.quote_into_iter(); => let ghost attr0 = attr@; let mut attr = attr.quote_into_iter();
@subst let has_iter = has_iter | i; => 
@subst < _ as CheckHasIterator < true >:: check >(has_iter); => 
@loop 0 for MatchArm
    invariant stream@ == arms_(arms@.take(it0.index())), self.same(old(self)), self.item_buffer.buffer@.len() == 0, self.output@ == old(self).output@ + wait_(*old(self).cx, old(self).item_buffer.buffer@), it0.seq() == arms@
@lend 0
    proof { assert(arms@.take(it0.index() + 1).drop_last() =~= arms@.take(it0.index())); }
@loop 1 while true
    invariant_except_break _s@ + attrs(attr.rest()) == attrs(attr0)
    ensures _s@ == attrs(attr0)
    decreases attr.rest().len()
@end
    proof { assert(arms@.take(arms@.len() as int) =~= arms@); }
@done
@fn m@encoder|Encoder||from -> r
    requires old(self).inv()
    ensures r == old(self).at(), final(self).out() == old(self).out(), final(self).cx == old(self).cx, final(self).item_buffer.cx == old(self).item_buffer.cx, final(self).span_start is None, final(self).span_end == old(self).span_end,
        final(self).last == old(self).last, final(self).requirements == old(self).requirements, final(self).indents@ == old(self).indents@,
        r is Some ==> final(self).last_start_column is Some && cols(old(self).indents@).push(final(self).last_start_column->0 as nat) == old(self).levels(),
        r is None ==> final(self).last_start_column is None
@done
@fn m@encoder|Encoder||tokenize_whitespace -> r
    requires old(self).item_buffer.cx == old(self).cx, old(self).last_start_column is Some, from.line <= to.line, rising(cols(old(self).indents@).push(old(self).last_start_column->0 as nat))
    ensures final(self).cx == old(self).cx, final(self).item_buffer.cx == old(self).cx, final(self).span_start == old(self).span_start, final(self).span_end == old(self).span_end,
        final(self).last == old(self).last, final(self).requirements == old(self).requirements,
        match ws(*old(self).cx, cols(old(self).indents@).push(old(self).last_start_column->0 as nat), old(self).last is None || to_span is None, from, to) {
            Some((ops, l)) => r is Ok && final(self).out() == run(*old(self).cx, old(self).out(), ops) && (if from.line == to.line {
                    final(self).last_start_column == old(self).last_start_column && final(self).indents@ == old(self).indents@
                } else { final(self).last_start_column is None && l == cols(final(self).indents@).push(to.column as nat) }),
            None => r is Err,
        }
@start
    broadcast use {lemma_run_0, lemma_run_push, lemma_cols};
    let ghost x = *self.cx; let ghost o0 = self.out(); let ghost ind0 = self.indents@; let ghost lsc = self.last_start_column->0; let ghost l0 = cols(self.indents@).push(lsc as nat); let ghost c = to.column as nat;
    proof { assert(l0.drop_last() =~= cols(ind0)); assert(l0.last() == lsc as nat); }
@loop 0 while letSome((column,_))=self.indents.pop()
    invariant_except_break
        self.indents@.len() <= ind0.len(), self.indents@ == ind0.take(self.indents@.len() as int), self.indents@.len() == 0 ==> ind0.len() == 0,
        level(cols(ind0), c) == level(cols(self.indents@), c), rising(cols(ind0)),
        self.item_buffer.buffer@ == Seq::<char>::empty(), ({ let o = run(x, o0, outs(x, (ind0.len() - self.indents@.len()) as nat, line)); self.output@ == o.0 + wait_(x, o.1) }),
    invariant
        self.cx == old(self).cx, self.item_buffer.cx == old(self).cx, self.span_start == old(self).span_start, self.span_end == old(self).span_end, self.last == old(self).last, self.requirements == old(self).requirements,
        x == *self.cx, r == &x.receiver, self.last_start_column is None, ind0 == old(self).indents@, old(self).last_start_column == Some(lsc), lsc as nat > c, l0 == cols(ind0).push(lsc as nat), l0.drop_last() == cols(ind0), c == to.column, line == (to.line - from.line > 1), from.line < to.line,
    ensures
        self.cx == old(self).cx, self.item_buffer.cx == old(self).cx, self.span_start == old(self).span_start, self.span_end == old(self).span_end, self.last == old(self).last, self.requirements == old(self).requirements,
        self.last_start_column is None, self.indents@.len() <= ind0.len(), self.indents@ == ind0.take(self.indents@.len() as int), 
        ind0.len() == 0 && self.out() == (o0.0 + wait_(x, o0.1), Seq::<char>::empty()) || level(cols(ind0), c) == Some(self.indents@.len()) && ind0.len() > 0 && self.out() == run(x, o0, outs(x, (ind0.len() - self.indents@.len()) as nat, line)),
    decreases self.indents@.len()
@lstart 0
    broadcast use {lemma_run_0, lemma_run_push, lemma_cols};
    proof {
        let n = self.indents@.len(); let k = (ind0.len() - n) as nat;
        assert(ind0.take(n as int + 1).drop_last() =~= ind0.take(n as int));
        assert(cols(ind0.take(n as int + 1)) =~= cols(ind0.take(n as int)).push(column as nat));
        assert(cols(ind0.take(n as int)).push(column as nat).drop_last() =~= cols(ind0.take(n as int)));
        assert(outs(x, k, line).len() >= 0);
        lemma_level(cols(ind0), c);
        lemma_level(cols(ind0.take(n as int)), c);
        if level(cols(ind0.take(n as int)), c) is Some { let i = level(cols(ind0.take(n as int)), c)->0; assert(cols(ind0)[i as int] == c && cols(ind0)[n as int] == column as nat); }
    }
@end
    proof {
        lemma_level(cols(ind0), c);
        if lsc as nat > c && level(cols(ind0), c) is Some {
            let k = level(cols(ind0), c)->0;
            assert(l0[k as int] == c); assert(l0.take(k as int + 1) =~= cols(self.indents@).push(c));
        }
    }
@done
@fn m@encoder|Encoder||step -> r
    requires old(self).inv(), old(self).at() is Some ==> old(self).at()->0.line <= next.start.line
    ensures final(self).cx == old(self).cx, final(self).requirements == old(self).requirements, final(self).span_end == old(self).span_end,
        match go(*old(self).cx, old(self).levels(), old(self).at(), old(self).fresh(), next.start) {
            Some((ops, l)) => r is Ok && final(self).inv() && final(self).out() == run(*old(self).cx, old(self).out(), ops) && final(self).levels() == l && final(self).at() == Some(next.end) && !final(self).fresh(),
            None => r is Err,
        }
@start
    broadcast use {lemma_run_0, lemma_run_push, lemma_cols};
    proof { assert(cols(Seq::<(usize, Option<Span>)>::empty()) =~= Seq::<nat>::empty()); assert(seq![next.start.column as nat] =~= Seq::<nat>::empty().push(next.start.column as nat)); }
@end
    proof { if old(self).at() is Some { lemma_ws_rising(*old(self).cx, old(self).levels(), old(self).fresh(), old(self).at()->0, next.start); } }
@done
@fn m@encoder|Encoder||finalize -> r
    requires old(self).inv(), old(self).at() is Some && old(self).span_end is Some ==> old(self).at()->0.line <= old(self).span_end->0.line
    ensures final(self).requirements == old(self).requirements,
        match fin(*old(self).cx, old(self).levels(), old(self).at(), old(self).span_end) {
            Some(ops) => r is Ok && final(self).out() == run(*old(self).cx, old(self).out(), ops) && final(self).item_buffer.buffer@.len() == 0,
            None => r is Err,
        }
@start
    broadcast use {lemma_run_0, lemma_run_push};
    let ghost x = *self.cx; let ghost o0 = self.out(); let ghost l0 = self.levels(); let ghost at0 = self.at(); let ghost end0 = self.span_end; let ghost s0 = *self;
@loop 0 while letSome(to)=self.span_end.take()
    invariant
        s0 == *old(self), s0.inv(), s0.levels() == l0, s0.at() == at0, s0.span_end == end0, o0 == s0.out(), x == *s0.cx, self.cx == s0.cx, self.item_buffer.cx == s0.cx, self.requirements == s0.requirements, receiver == &x.receiver,
        at0 is Some && end0 is Some ==> at0->0.line <= end0->0.line,
        match self.span_end {
            Some(e) => *self == s0,
            None => match go_end(x, l0, at0, end0) { Some((ops, m)) => self.out() == run(x, o0, ops) && self.indents@.len() == below(m), None => false },
        },
    ensures self.span_end is None
    decreases if self.span_end is Some { 1int } else { 0 }
@lstart 0
    broadcast use {lemma_run_0, lemma_run_push};
@loop 1 while self.indents.pop().is_some()
    invariant
        self.cx == s0.cx, self.item_buffer.cx == s0.cx, self.requirements == s0.requirements, receiver == &x.receiver, self.indents@.len() <= n1,
        self.item_buffer.buffer@ == Seq::<char>::empty(), self.out() == run(x, o1, outs(x, (n1 - self.indents@.len()) as nat, false)),
    ensures self.indents@.len() == 0
    decreases self.indents@.len()
@lstart 1
    broadcast use {lemma_run_0, lemma_run_push};
@end
    proof { let g = go_end(x, l0, at0, end0)->0; lemma_run_cat(x, o0, g.0.push(Op::Code(tk![])), outs(x, n1 as nat, false)); }
@subst self.item_buffer.flush(&mut self.output); => self.item_buffer.flush(&mut self.output); let ghost n1 = self.indents@.len(); let ghost o1 = self.out(); 
@done
@fn m@encoder|Encoder||into_output -> r
    requires self.inv(), self.at() is Some && self.span_end is Some ==> self.at()->0.line <= self.span_end->0.line
    ensures
        match fin(*self.cx, self.levels(), self.at(), self.span_end) {
            Some(ops) => r is Ok && r->Ok_0.0 == self.requirements && (r->Ok_0.1@, Seq::<char>::empty()) == run(*self.cx, self.out(), ops),
            None => r is Err,
        }
@done
@fn m@encoder|Encoder||encode -> r
    requires old(self).inv(), old(self).at() is Some ==> old(self).at()->0.line <= cursor.start.line
    ensures final(self).cx == old(self).cx, final(self).span_end == old(self).span_end,
        match go(*old(self).cx, old(self).levels(), old(self).at(), old(self).fresh(), cursor.start) {
            Some((ops, l)) => r is Ok && final(self).inv() && final(self).out() == run(*old(self).cx, old(self).out(), ops.push(op_of(*old(self).cx, ast))) && final(self).levels() == l && final(self).at() == Some(cursor.end) && !final(self).fresh()
                && final(self).requirements.lang_supports_eval == (old(self).requirements.lang_supports_eval || evals(ast)),
            None => r is Err,
        }
@start
    broadcast use {lemma_run_0, lemma_run_push};
@done
}
