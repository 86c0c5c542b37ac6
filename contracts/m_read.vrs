@include enc_core.vrs
@include read_core.vrs
pub mod strp {
use super::*;
broadcast use seqm::group_seq;
@include str_core.vrs
}
// ---- what a quote means ----
/// where encoding stands
pub struct St { pub levels: Seq<nat>, pub at: Option<LineColumn>, pub first: bool, pub out: Out, pub need: bool }
impl<'a> Encoder<'a> {
    pub open spec fn st(&self) -> St { St { levels: self.levels(), at: self.at(), first: self.fresh(), out: self.out(), need: self.requirements.lang_supports_eval } }
}
/// one item, from where it starts to where it ends
pub open spec fn put(x: Ctxt, s: St, from: LineColumn, to: LineColumn, op: Op, need: bool) -> Option<St> {
    match go(x, s.levels, s.at, s.first, from) { Some((ops, l)) => Some(St { levels: l, at: Some(to), first: false, out: run(x, s.out, ops.push(op)), need: s.need || need }), None => None }
}
/// ... and what is left to read
pub struct Nx { pub st: St, pub rest: Seq<Tree> }
pub open spec fn nx(s: Option<St>, rest: Seq<Tree>) -> Option<Nx> { match s { Some(st) => Some(Nx { st, rest }), None => None } }
/// the code of a quote, whether it needs a language that can evaluate in strings, and what is left to read
pub struct Qt { pub code: Code, pub need: bool, pub rest: Seq<Tree> }
/// what is written for `$(..)`
pub struct Po { pub op: Op, pub need: bool }
/// where encoding of a string stands
pub struct StrSt { pub out: Out, pub at: Option<LineColumn>, pub evals: bool, pub need: bool }
pub struct Sx { pub st: StrSt, pub rest: Seq<Tree> }
pub open spec fn sx(s: Option<StrSt>, rest: Seq<Tree>) -> Option<Sx> { match s { Some(st) => Some(Sx { st, rest }), None => None } }
pub open spec fn sput(x: Ctxt, s: StrSt, from: LineColumn, to: LineColumn, op: Op, evals: bool, need: bool) -> Option<StrSt> {
    if strp::same_line(s.at, Some(from)) { Some(StrSt { out: strp::piece(x, s.out, s.at, from, op), at: Some(to), evals: s.evals || evals, need: s.need || need }) } else { None }
}
pub struct Sr { pub code: Code, pub evals: bool, pub need: bool }
/// the name of a function: `$[name]`
pub enum Nm { Word(Seq<char>), Char(char) }
pub struct Fun { pub name: Nm, pub content: Option<Seq<Tree>>, pub start: Span, pub end: Span, pub rest: Seq<Tree> }
/// behind an opening and before a closing delimiter
pub open spec fn after_open(s: Span) -> LineColumn { LineColumn { line: starts(s).line, column: (starts(s).column + 1) as usize } }
pub open spec fn before_close(s: Span) -> LineColumn { LineColumn { line: ends(s).line, column: if ends(s).column > 0 { (ends(s).column - 1) as usize } else { 0 } } }
pub open spec fn func_at(ts: Seq<Tree>) -> bool { is_at::<Dollar>(ts) && is_at::<Bracket>(after(ts, 1)) }
pub open spec fn name_of(ts: Seq<Tree>) -> Option<Rd<Nm>> {
    if is_at::<Const>(ts) { match read::<Const>(ts) { Some(r) => Some(Rd { v: Nm::Word("const"@), n: r.n }), None => None } }
    else if is_at::<LitChar>(ts) { match read::<LitChar>(ts) { Some(r) => Some(Rd { v: Nm::Char(r.v.val()), n: r.n }), None => None } }
    else { match read::<Ident>(ts) { Some(r) => Some(Rd { v: Nm::Word(r.v.name()), n: r.n }), None => None } }
}
/// `$[name]` or `$[name](content)`
pub open spec fn func(ts: Seq<Tree>) -> Option<Fun> {
    match group_at(after(ts, 1), Delimiter::Bracket) {
        Some(g) => match name_of(g.i) {
            Some(r) => if r.n == g.i.len() {
                match group_at(after(after(ts, 1), 1), Delimiter::Parenthesis) {
                    Some(p) => Some(Fun { name: r.v, content: Some(p.i), start: tspan(ts[0]), end: p.s, rest: after(after(after(ts, 1), 1), 1) }),
                    None => Some(Fun { name: r.v, content: None, start: tspan(ts[0]), end: g.s, rest: after(after(ts, 1), 1) }),
                }
            } else { None },
            None => None,
        },
        None => None,
    }
}
pub open spec fn kind(c: char) -> Option<ControlKind> { if c == ' ' { Some(ControlKind::Space) } else if c == '\r' { Some(ControlKind::Push) } else if c == '\n' { Some(ControlKind::Line) } else { None } }
pub open spec fn quoted_lit(x: Ctxt, s: Seq<char>) -> Op { Op::Code(open_(x, false) + append(x, item(x, "ItemStr"@, "Static"@).push(paren(tk![Tk::S(s)]))) + close_(x)) }
/// a string literal and nothing else
pub open spec fn lone(ts: Seq<Tree>) -> bool { read::<LitStr>(ts) is Some && read::<LitStr>(ts)->0.n == ts.len() }
pub mod grammar {
use super::*;
broadcast use {synm::group_syn, synm::group_tsize};
/// The items of a quote, up to its end or, where it is not in delimiters of its own, the first comma.
@opens
pub open spec fn body(x: Ctxt, s: St, ts: Seq<Tree>, comma: bool) -> Option<Nx> decreases tsize(ts), 9nat {
    if ts.len() == 0 || comma && is_at::<Comma>(ts) { Some(Nx { st: s, rest: ts }) }
    else { match one(x, s, ts) { Some(n) => if tsize(n.rest) < tsize(ts) { body(x, n.st, n.rest, comma) } else { None }, None => None } }
}
/// the next item
@opens
pub open spec fn one(x: Ctxt, s: St, ts: Seq<Tree>) -> Option<Nx> decreases tsize(ts), 8nat {
    if ts.len() == 0 { None }
    else if is_at::<Dollar>(ts) && is_at::<Dollar>(after(ts, 1)) { nx(put(x, s, starts(tspan(ts[0])), ends(tspan(after(ts, 1)[0])), Op::Lit(Seq::<char>::empty().push('$')), false), after(after(ts, 1), 1)) }
    else if func_at(ts) { match func(ts) { Some(f) => match function(x, f, tsize(ts)) { Some(o) => nx(put(x, s, starts(f.start), ends(f.end), o.op, o.need), f.rest), None => None }, None => None } }
    else if is_at::<Dollar>(ts) && (is_at::<Paren>(after(ts, 1)) || is_at::<Ident>(after(ts, 1))) { expression(x, s, ts) }
    else if is_at::<LitStr>(ts) { match read::<LitStr>(ts) { Some(r) => nx(put(x, s, starts(r.v.sp()), ends(r.v.sp()), quoted_lit(x, r.v.val()), false), after(ts, r.n)), None => None } }
    else {
        match ts[0] {
            Tree::Group(d, sp, i) => if tsize(i) < tsize(ts) { nx(grouped(x, s, d, sp, i), after(ts, 1)) } else { None },
            Tree::Leaf(t) => nx(put(x, s, starts(t.sp()), ends(t.sp()), Op::Lit(t.text()), false), after(ts, 1)),
        }
    }
}
/// `$[str](..)` and the kinds of whitespace; `n` bounds the content
@opens
pub open spec fn function(x: Ctxt, f: Fun, n: nat) -> Option<Po> decreases n, 1nat {
    match (f.name, f.content) {
        (Nm::Word(w), Some(c)) => if w == "str"@ && tsize(c) < n { match strung(x, c, f.end) { Some(q) => Some(Po { op: Op::Code(open_(x, q.evals) + q.code + close_(x)), need: q.need || q.evals }), None => None } } else { None },
        (Nm::Char(c), None) => match kind(c) { Some(k) => Some(Po { op: control(x, k), need: false }), None => None },
        _ => None,
    }
}
/// `$(..)` and `$ident`
@opens
pub open spec fn expression(x: Ctxt, s: St, ts: Seq<Tree>) -> Option<Nx> decreases tsize(ts), 7nat {
    match group_at(after(ts, 1), Delimiter::Parenthesis) {
        Some(g) => if tsize(g.i) < tsize(ts) { match eval(x, g.i) { Some(o) => nx(put(x, s, starts(tspan(ts[0])), ends(g.s), o.op, o.need), after(after(ts, 1), 1)), None => None } } else { None },
        None => match read::<Ident>(after(ts, 1)) { Some(r) => nx(put(x, s, starts(tspan(ts[0])), ends(r.v.sp()), Op::Code(append(x, r.v.code())), false), after(after(ts, 1), r.n)), None => None },
    }
}
/// a group: its delimiters are items, and so is what is in it
@opens
pub open spec fn grouped(x: Ctxt, s: St, d: Delimiter, sp: Span, i: Seq<Tree>) -> Option<St> decreases tsize(i), 10nat {
    match put(x, s, starts(sp), after_open(sp), Op::Lit(seq![opens(d)]), false) {
        Some(a) => match body(x, a, i, false) { Some(b) => put(x, b.st, before_close(sp), ends(sp), Op::Lit(seq![closes(d)]), false), None => None },
        None => None,
    }
}
/// a whole quote, in delimiters of its own if its start and end are given
@opens
pub open spec fn quoted(x: Ctxt, ts: Seq<Tree>, start: Option<LineColumn>, end: Option<LineColumn>, comma: bool) -> Option<Qt> decreases tsize(ts), 10nat {
    let s = St { levels: match start { Some(s) => seq![s.column as nat], None => Seq::<nat>::empty() }, at: start, first: true, out: (Seq::<Tk>::empty(), Seq::<char>::empty()), need: false };
    match body(x, s, ts, comma) {
        Some(n) => match fin(x, n.st.levels, n.st.at, end) { Some(ops) => Some(Qt { code: run(x, n.st.out, ops).0, need: n.st.need, rest: n.rest }), None => None },
        None => None,
    }
}
/// what stands in `$(..)`
@opens
pub open spec fn eval(x: Ctxt, ts: Seq<Tree>) -> Option<Po> decreases tsize(ts), 13nat {
    if is_at::<If>(ts) { cond_op(x, ts) }
    else if is_at::<For>(ts) { loop_op(x, ts) }
    else if is_at::<Match>(ts) { match_op(x, ts) }
    else if is_at::<Let>(ts) { let_op(ts) }
    else if is_at::<Ref>(ts) { scope_op(x, ts) }
    else if lone(ts) { Some(Po { op: Op::Lit(read::<LitStr>(ts)->0.v.val()), need: false }) }
    else { match read::<Expr>(ts) { Some(e) => Some(Po { op: Op::Code(append(x, e.v.code())), need: false }), None => None } }
}
/// `if c => quote`, `if c { quote }` or `if c { quote } else { quote }`
@opens
pub open spec fn cond_op(x: Ctxt, ts: Seq<Tree>) -> Option<Po> decreases tsize(ts), 12nat {
    match read::<If>(ts) { None => None, Some(k) => match read_cond(after(ts, k.n)) { None => None, Some(c) => {
        let t = after(after(ts, k.n), c.n);
        match read::<FatArrow>(t) {
            Some(a) => match quoted(x, after(t, a.n), None, None, false) { Some(q) => Some(Po { op: Op::Code(cond(c.v, q.code, None)), need: q.need }), None => None },
            None => match group_at(t, Delimiter::Brace) { None => None, Some(g) => match quoted(x, g.i, None, None, false) { None => None, Some(q) =>
                match read::<Else>(after(t, 1)) {
                    None => Some(Po { op: Op::Code(cond(c.v, q.code, None)), need: q.need }),
                    Some(e) => match group_at(after(after(t, 1), e.n), Delimiter::Brace) { None => None, Some(h) => match quoted(x, h.i, None, None, false) {
                        Some(p) => Some(Po { op: Op::Code(cond(c.v, q.code, Some(p.code))), need: q.need || p.need }), None => None } },
                } } },
        } } } }
}
/// `for p in e => quote`, `for p in e { quote }`, both with `join (quote)` before
@opens
pub open spec fn loop_op(x: Ctxt, ts: Seq<Tree>) -> Option<Po> decreases tsize(ts), 12nat {
    match read::<For>(ts) { None => None, Some(k) => match read_pat(after(ts, k.n)) { None => None, Some(p) => match read::<In>(after(after(ts, k.n), p.n)) { None => None, Some(l) =>
        match read_cond(after(after(after(ts, k.n), p.n), l.n)) { None => None, Some(e) => {
            let t = after(after(after(after(ts, k.n), p.n), l.n), e.n);
            match read::<join>(t) {
                None => match looped_quote(x, t) { Some(q) => Some(Po { op: Op::Code(looped(p.v, e.v, None, q.code)), need: q.need }), None => None },
                Some(j) => match group_at(after(t, j.n), Delimiter::Parenthesis) { None => None, Some(g) => match quoted(x, g.i, Some(after_open(g.s)), Some(before_close(g.s)), false) { None => None, Some(h) =>
                    match looped_quote(x, after(after(t, j.n), 1)) { Some(q) => Some(Po { op: Op::Code(looped(p.v, e.v, Some(h.code), q.code)), need: h.need || q.need }), None => None } } },
            } } } } } }
}
@opens
pub open spec fn looped_quote(x: Ctxt, t: Seq<Tree>) -> Option<Qt> decreases tsize(t), 11nat {
    match read::<FatArrow>(t) {
        Some(a) => quoted(x, after(t, a.n), None, None, false),
        None => match group_at(t, Delimiter::Brace) { Some(g) => quoted(x, g.i, None, None, false), None => None },
    }
}
/// `match c { arms }`
@opens
pub open spec fn match_op(x: Ctxt, ts: Seq<Tree>) -> Option<Po> decreases tsize(ts), 12nat {
    match read::<Match>(ts) { None => None, Some(k) => match read_cond(after(ts, k.n)) { None => None, Some(c) =>
        match group_at(after(after(ts, k.n), c.n), Delimiter::Brace) { None => None, Some(g) =>
            match arms_from(x, g.i, tk![], false) { Some(q) => Some(Po { op: Op::Code(tk![id("match")] + c.v.code() + tk![brace(q.code)]), need: q.need }), None => None } } } }
}
/// arms: attributes, pattern, guard, =>, and a quote in braces, in parentheses (then space at its ends counts) or up to a comma
@opens
pub open spec fn arms_from(x: Ctxt, ts: Seq<Tree>, acc: Code, need: bool) -> Option<Qt> decreases tsize(ts), 14nat {
    if ts.len() == 0 { Some(Qt { code: acc, need, rest: ts }) }
    else { match one_arm(x, ts) { None => None, Some(q) => {
        let t = match read::<Comma>(q.rest) { Some(c) => after(q.rest, c.n), None => q.rest };
        if tsize(t) < tsize(ts) { arms_from(x, t, acc + q.code, need || q.need) } else { None } } } }
}
@opens
pub open spec fn one_arm(x: Ctxt, ts: Seq<Tree>) -> Option<Qt> decreases tsize(ts), 13nat {
    match read_attrs(ts) { None => None, Some(a) => match read_pats(after(ts, a.n)) { None => None, Some(p) => {
        let t = after(after(ts, a.n), p.n);
        match read::<If>(t) {
            None => match arm_quote(x, t) { Some(q) => Some(Qt { code: arm_code(a.v, p.v, None, q.code), need: q.need, rest: q.rest }), None => None },
            Some(k) => match read::<Expr>(after(t, k.n)) { None => None, Some(e) => match arm_quote(x, after(after(t, k.n), e.n)) {
                Some(q) => Some(Qt { code: arm_code(a.v, p.v, Some(e.v), q.code), need: q.need, rest: q.rest }), None => None } },
        } } } }
}
@opens
pub open spec fn arm_quote(x: Ctxt, ts: Seq<Tree>) -> Option<Qt> decreases tsize(ts), 12nat {
    match read::<FatArrow>(ts) { None => None, Some(a) => {
        let t = after(ts, a.n);
        match group_at(t, Delimiter::Brace) {
            Some(g) => match quoted(x, g.i, None, None, false) { Some(q) => Some(Qt { code: q.code, need: q.need, rest: after(t, 1) }), None => None },
            None => match group_at(t, Delimiter::Parenthesis) {
                Some(g) => match quoted(x, g.i, Some(after_open(g.s)), Some(before_close(g.s)), false) { Some(q) => Some(Qt { code: q.code, need: q.need, rest: after(t, 1) }), None => None },
                None => quoted(x, t, None, None, true),
            },
        } } }
}
/// `let p = e`
pub open spec fn let_op(ts: Seq<Tree>) -> Option<Po> {
    match read::<Let>(ts) { None => None, Some(k) => match read_pat(after(ts, k.n)) { None => None, Some(p) => match read::<Eq>(after(after(ts, k.n), p.n)) { None => None, Some(q) =>
        match read_cond(after(after(after(ts, k.n), p.n), q.n)) { None => None, Some(e) =>
            Some(Po { op: Op::Code(tk![id("let")] + p.v.code() + tk![Tk::P('=')] + e.v.code() + tk![Tk::P(';')]), need: false }) } } } }
}
/// `ref b { code }`, `ref b => code`, with `_` for b if the stream is not needed
pub open spec fn scope_op(x: Ctxt, ts: Seq<Tree>) -> Option<Po> {
    match read::<Ref>(ts) { None => None, Some(k) => {
        let t = after(ts, k.n);
        match read::<Underscore>(t) {
            Some(u) => scope_rest(x, None, after(t, u.n)),
            None => match read::<Ident>(t) { Some(b) => scope_rest(x, Some(b.v), after(t, b.n)), None => None },
        } } }
}
pub open spec fn scope_rest(x: Ctxt, b: Option<Ident>, t: Seq<Tree>) -> Option<Po> {
    match group_at(t, Delimiter::Brace) {
        Some(g) => match read::<TokenStream>(g.i) { Some(c) => Some(Po { op: scope(x, b, c.v@), need: false }), None => None },
        None => match read::<FatArrow>(t) { None => None, Some(a) => match read::<TokenStream>(after(t, a.n)) { Some(c) => Some(Po { op: scope(x, b, c.v@), need: false }), None => None } },
    }
}
/// a quoted string: what stands in the parentheses `sp`
@opens
pub open spec fn strung(x: Ctxt, ts: Seq<Tree>, sp: Span) -> Option<Sr> decreases tsize(ts), 11nat {
    match str_body(x, StrSt { out: (Seq::<Tk>::empty(), Seq::<char>::empty()), at: Some(after_open(sp)), evals: false, need: false }, ts) {
        Some(n) => match sput(x, n.st, before_close(sp), before_close(sp), Op::Code(tk![]), false, false) { Some(e) => Some(Sr { code: e.out.0, evals: e.evals, need: e.need }), None => None },
        None => None,
    }
}
@opens
pub open spec fn str_body(x: Ctxt, s: StrSt, ts: Seq<Tree>) -> Option<Sx> decreases tsize(ts), 9nat {
    if ts.len() == 0 { Some(Sx { st: s, rest: ts }) }
    else { match str_one(x, s, ts) { Some(n) => if tsize(n.rest) < tsize(ts) { str_body(x, n.st, n.rest) } else { None }, None => None } }
}
@opens
pub open spec fn str_one(x: Ctxt, s: StrSt, ts: Seq<Tree>) -> Option<Sx> decreases tsize(ts), 8nat {
    if ts.len() == 0 { None }
    else if is_at::<Dollar>(ts) && is_at::<Dollar>(after(ts, 1)) { sx(sput(x, s, starts(tspan(ts[0])), ends(tspan(after(ts, 1)[0])), Op::Lit(Seq::<char>::empty().push('$')), false, false), after(after(ts, 1), 1)) }
    else if func_at(ts) { match func(ts) { Some(f) => match str_function(x, f) { Some(op) => sx(sput(x, s, starts(f.start), ends(f.end), op, false, false), f.rest), None => None }, None => None } }
    else if is_at::<Dollar>(ts) {
        match group_at(after(ts, 1), Delimiter::Parenthesis) {
            Some(g) => if tsize(g.i) < tsize(ts) { match quoted(x, g.i, Some(after_open(g.s)), Some(before_close(g.s)), false) {
                Some(q) => sx(sput(x, s, starts(tspan(ts[0])), ends(g.s), Op::Code(strp::open_eval(x) + q.code + strp::close_eval(x)), true, q.need), after(after(ts, 1), 1)), None => None } } else { None },
            None => match read::<Ident>(after(ts, 1)) { Some(r) => sx(sput(x, s, starts(tspan(ts[0])), ends(r.v.sp()), Op::Code(strp::open_eval(x) + strp::lit_item(x, r.v.name()) + strp::close_eval(x)), true, false), after(after(ts, 1), r.n)), None => None },
        }
    }
    else {
        match ts[0] {
            Tree::Group(d, sp, i) => if tsize(i) < tsize(ts) { sx(str_grouped(x, s, opens(d), closes(d), sp, i), after(ts, 1)) } else { None },
            Tree::Leaf(t) => sx(sput(x, s, starts(t.sp()), ends(t.sp()), Op::Lit(t.text()), false, false), after(ts, 1)),
        }
    }
}
/// `$[const](..)`
pub open spec fn str_function(x: Ctxt, f: Fun) -> Option<Op> {
    match (f.name, f.content) {
        (Nm::Word(w), Some(c)) => if w == "const"@ {
            if lone(c) { Some(Op::Lit(read::<LitStr>(c)->0.v.val())) }
            else { match read::<Expr>(c) { Some(e) => Some(Op::Code(append(x, e.v.code()))), None => None } }
        } else { None },
        _ => None,
    }
}
@opens
pub open spec fn str_grouped(x: Ctxt, s: StrSt, o: char, c: char, sp: Span, i: Seq<Tree>) -> Option<StrSt> decreases tsize(i), 10nat {
    match sput(x, s, starts(sp), after_open(sp), Op::Lit(Seq::<char>::empty().push(o)), false, false) {
        Some(a) => match str_body(x, a, i) { Some(b) => sput(x, b.st, before_close(sp), ends(sp), Op::Lit(Seq::<char>::empty().push(c)), false, false), None => None },
        None => None,
    }
}
}
use grammar::*;
@type m@ast::LiteralName
@type m@ast::Name
@type m@quote::Quote
/// reading strings
pub mod strq {
use super::*;
use super::strp::{Encoder, StringParser, Options};
@fn m@string_parser|||is_lit_str_opt -> r
    ensures r is Ok, r->Ok_0 == lone(content@)
@start
    broadcast use {synm::group_syn, synm::group_tsize};
@done
impl<'a> Encoder<'a> {
    pub open spec fn st(&self, need: bool) -> StrSt { StrSt { out: self.out(), at: self.at(), evals: self.options.has_eval.v, need } }
}
impl<'a> StringParser<'a> {
@fn m@string_parser|StringParser||parse_inner -> r
    requires *old(encoder).cx == *self.cx, neat(old(input)@), tsize(old(input)@) < usize::MAX
    ensures
        match str_body(*self.cx, old(encoder).st(old(requirements).lang_supports_eval), old(input)@) {
            Some(n) => r is Ok && final(encoder).cx == old(encoder).cx && final(encoder).st(final(requirements).lang_supports_eval) == n.st,
            None => r is Err,
        }
    decreases tsize(old(input)@), 4nat
@subst encoder : & Encoder < '_ > => encoder : &mut Encoder < '_ >
@start
    let ghost x = *self.cx; let ghost ts0 = input@; let ghost s0 = encoder.st(requirements.lang_supports_eval);
@loop 0 while !input.is_empty()
    invariant *encoder.cx == x, x == *self.cx, encoder.cx == old(encoder).cx, neat(input@), tsize(input@) <= tsize(old(input)@), tsize(old(input)@) < usize::MAX,
        ts0 == old(input)@, s0 == old(encoder).st(old(requirements).lang_supports_eval),
        str_body(x, s0, ts0) == str_body(x, encoder.st(requirements.lang_supports_eval), input@),
    decreases tsize(input@)
@lstart 0
    broadcast use {synm::group_syn, synm::group_tsize, neatm::group_neat, axiom_column};
    proof { let s = encoder.st(requirements.lang_supports_eval); open_str_body(x, s, input@); open_str_one(x, s, input@); }
@done
@fn m@string_parser|StringParser||parse_group -> r
    requires *old(encoder).cx == *self.cx, neat(old(input)@), tsize(old(input)@) < usize::MAX
    ensures
        match str_grouped(*self.cx, old(encoder).st(old(requirements).lang_supports_eval), xt_arr1@[0], xt_arr1@[1], span, old(input)@) {
            Some(s) => r is Ok && final(encoder).cx == old(encoder).cx && final(encoder).st(final(requirements).lang_supports_eval) == s,
            None => r is Err,
        }
    decreases tsize(old(input)@), 5nat
@subst encoder : & Encoder < '_ > => encoder : &mut Encoder < '_ >
@start
    broadcast use axiom_column;
@done
@fn m@string_parser|StringParser||parse -> r
    requires neat(old(input)@), tsize(old(input)@) < usize::MAX, self.start == after_open(self.span), self.end == before_close(self.span)
    ensures
        match strung(*self.cx, old(input)@, self.span) {
            Some(q) => r is Ok && r->Ok_0.0.has_eval.v == q.evals && r->Ok_0.1.lang_supports_eval == q.need && r->Ok_0.2@ == q.code,
            None => r is Err,
        }
    decreases tsize(old(input)@), 5nat
@subst let encoder => let mut encoder
@subst & encoder , => &mut encoder ,
@done
}
}
/// reading quotes
pub mod quotm {
use super::*;
use super::strp::StringParser;
use super::strq::is_lit_str_opt;
pub broadcast proof fn lemma_arms_push(a: Seq<MatchArm>, m: MatchArm) ensures #[trigger] arms_(a.push(m)) == arms_(a) + arm(m) { assert(a.push(m).drop_last() =~= a); assert(a.push(m).last() == m); }
pub open spec fn of_arms(c: Code, q: Option<Qt>) -> Option<Po> { match q { Some(q) => Some(Po { op: Op::Code(tk![id("match")] + c + tk![brace(q.code)]), need: q.need }), None => None } }
/// nothing before the first item
pub open spec fn line_of(at: Option<LineColumn>) -> nat { match at { Some(a) => a.line as nat, None => 0 } }
impl Name {
    pub open spec fn nm(&self) -> Nm { match self { Name::Const(_) => Nm::Word("const"@), Name::Ident(s) => Nm::Word(s@), Name::Char(c) => Nm::Char(*c) } }
    #[verifier::external_body]
    pub fn span(&self) -> Span { unimplemented!() }
@fn m@ast|Name||as_literal_name -> r
    ensures match r { LiteralName::Ident(s) => self.nm() == Nm::Word(s@), LiteralName::Char(c) => self.nm() == Nm::Char(c) }
@done
}
@fn m@quote|||parse_internal_function -> r
    ensures
        !func_at(old(input)@) ==> r is Ok && r->Ok_0 is None && final(input)@ == old(input)@,
        func_at(old(input)@) ==> match func(old(input)@) {
            Some(f) => (match r { Ok(Some(t)) => t.0.nm() == f.name && (match (t.1, f.content) { (Some(b), Some(c)) => b@ == c, (None, None) => true, _ => false }) && t.2@[0] == f.start && t.2@[1] == f.end, _ => false }) && final(input)@ == f.rest,
            None => r is Err,
        }
@start
    broadcast use {synm::group_syn, synm::group_tsize};
@done
@fn m@quote::with_span|||adjust_start -> r
    ensures r.line == start.line, start.column < usize::MAX ==> r.column == start.column + 1, start.column == usize::MAX ==> r.column == usize::MAX
@done
@fn m@quote::with_span|||adjust_end -> r
    ensures r.line == end.line, r.column == if end.column > 0 { end.column - 1 } else { 0 }
@done
impl<'a> Quote<'a> {
    /// (the buffer is scratch space)
    pub open spec fn as_(&self, o: &Quote<'a>) -> bool { self.cx == o.cx && self.until_comma == o.until_comma && self.span_start == o.span_start && self.span_end == o.span_end }
@fn m@quote|Quote||new -> r
    ensures r.cx == cx, r.span_start is None, r.span_end is None, !r.until_comma
@done
@fn m@quote|Quote||new_until_comma -> r
    ensures r.cx == cx, r.span_start is None, r.span_end is None, r.until_comma
@done
@fn m@quote|Quote||with_span -> r
    ensures r is Ok, r->Ok_0.cx == self.cx, r->Ok_0.until_comma == self.until_comma, r->Ok_0.span_start == Some(after_open(span)), r->Ok_0.span_end == Some(before_close(span))
@start
    broadcast use axiom_column;
@done
@fn m@quote|Quote||parse -> r
    requires match self.span_start { None => neat(old(input)@), Some(s) => orderly(old(input)@, s.line as nat) }, tsize(old(input)@) < usize::MAX, self.span_end is Some ==> self.span_start is Some && last_line(old(input)@, line_of(self.span_start)) <= self.span_end->0.line
    ensures match quoted(*self.cx, old(input)@, self.span_start, self.span_end, self.until_comma) {
        Some(q) => r is Ok && r->Ok_0.0.lang_supports_eval == q.need && r->Ok_0.1@ == q.code && final(input)@ == q.rest && neat(q.rest) && tsize(q.rest) <= tsize(old(input)@),
        None => r is Err,
    }
    decreases tsize(old(input)@), 5nat
@subst xt_self . parse_inner => proof { assert(encoder.st().levels =~= s0.levels); assert(encoder.st() == s0); } xt_self.parse_inner
@start
    broadcast use neatm::lemma_neat_0;
    let ghost s0 = St { levels: match self.span_start { Some(s) => seq![s.column as nat], None => Seq::<nat>::empty() }, at: self.span_start, first: true, out: (Seq::<Tk>::empty(), Seq::<char>::empty()), need: false };
@done
@fn m@quote|Quote||parse_inner -> r
    requires old(encoder).inv(), *old(encoder).cx == *old(self).cx, orderly(old(input)@, line_of(old(encoder).at())), group_depth + tsize(old(input)@) < usize::MAX
    ensures
        match body(*old(self).cx, old(encoder).st(), old(input)@, group_depth == 0 && old(self).until_comma) {
            Some(n) => r is Ok && final(self).as_(old(self)) && final(encoder).cx == old(encoder).cx && final(encoder).span_end == old(encoder).span_end && final(encoder).inv() && final(encoder).st() == n.st && final(input)@ == n.rest && tsize(n.rest) <= tsize(old(input)@)
                && orderly(n.rest, line_of(n.st.at)) && last_line(n.rest, line_of(n.st.at)) == last_line(old(input)@, line_of(old(encoder).at()))
                && line_of(n.st.at) <= last_line(old(input)@, line_of(old(encoder).at())) && neat(n.rest),
            None => r is Err,
        }
    decreases tsize(old(input)@), 4nat
@rlimit 200
@start
    hide(body); hide(one); hide(function); hide(expression); hide(grouped); hide(quoted); hide(eval); hide(cond_op); hide(loop_op); hide(looped_quote); hide(match_op); hide(arms_from); hide(one_arm); hide(arm_quote); hide(strung); hide(str_body); hide(str_one); hide(str_grouped);
    hide(append); hide(call); hide(item); hide(open_); hide(close_); hide(go); hide(run); hide(cond); hide(looped); hide(scope); hide(let_op); hide(scope_op);
    let ghost x = *self.cx; let ghost ts0 = input@; let ghost s0 = encoder.st(); let ghost comma = group_depth == 0 && self.until_comma; let ghost last = last_line(input@, line_of(encoder.at()));
@loop 0 while !input.is_empty()
    invariant self.as_(old(self)), *encoder.cx == x, x == *self.cx, encoder.inv(), encoder.cx == old(encoder).cx, encoder.span_end == old(encoder).span_end, tsize(input@) <= tsize(old(input)@), group_depth + tsize(old(input)@) < usize::MAX,
        ts0 == old(input)@, s0 == old(encoder).st(), comma == (group_depth == 0 && self.until_comma),
        orderly(input@, line_of(encoder.at())), last_line(input@, line_of(encoder.at())) == last,
        body(x, s0, ts0, comma) == body(x, encoder.st(), input@, comma),
    ensures input@.len() == 0 || comma && is_at::<Comma>(input@)
    decreases tsize(input@)
@lstart 0
    broadcast use {synm::group_syn, synm::group_tsize, neatm::group_neat, axiom_column};
    proof { neatm::lemma_neat(input@, line_of(encoder.at())); let l = line_of(encoder.at()); neatm::lemma_step(input@, l); neatm::lemma_step(after(input@, 1), first_end(input@)); if after(input@, 1).len() > 0 { neatm::lemma_step(after(after(input@, 1), 1), first_end(after(input@, 1))); } }
    proof { open_body(x, encoder.st(), input@, comma); open_one(x, encoder.st(), input@); if let Some(f) = func(input@) { open_function(x, f, tsize(input@)); } }
@arm
    let _t = &mut *encoder; let _t = &mut *input; let _t = &mut *self;
@end
    proof { open_body(x, encoder.st(), input@, comma); neatm::lemma_end(input@, line_of(encoder.at())); neatm::lemma_neat(input@, line_of(encoder.at())); }
@done
@fn m@quote|Quote||parse_group -> r
    requires old(encoder).inv(), *old(encoder).cx == *old(self).cx, group_depth + tsize(old(input)@) + 1 < usize::MAX,
        line_of(old(encoder).at()) <= starts(span).line, orderly(old(input)@, starts(span).line as nat), last_line(old(input)@, starts(span).line as nat) <= ends(span).line
    ensures
        match grouped(*old(self).cx, old(encoder).st(), delimiter, span, old(input)@) {
            Some(s) => r is Ok && final(self).as_(old(self)) && final(encoder).cx == old(encoder).cx && final(encoder).span_end == old(encoder).span_end && final(encoder).inv() && final(encoder).st() == s && final(encoder).at() == Some(ends(span)),
            None => r is Err,
        }
    decreases tsize(old(input)@), 5nat
@start
    broadcast use axiom_column;
@done
@fn m@quote|Quote||parse_expression -> r
    requires old(encoder).inv(), *old(encoder).cx == *old(self).cx, orderly(old(input)@, line_of(old(encoder).at())), tsize(old(input)@) < usize::MAX,
        is_at::<Dollar>(old(input)@), is_at::<Paren>(after(old(input)@, 1)) || is_at::<Ident>(after(old(input)@, 1))
    ensures
        match expression(*old(self).cx, old(encoder).st(), old(input)@) {
            Some(n) => r is Ok && final(self).as_(old(self)) && final(encoder).cx == old(encoder).cx && final(encoder).span_end == old(encoder).span_end && final(encoder).inv() && final(encoder).st() == n.st && final(input)@ == n.rest && n.rest == after(after(old(input)@, 1), 1) && final(encoder).at() == Some(ends(tspan(after(old(input)@, 1)[0]))) && old(input)@.len() >= 2,
            None => r is Err,
        }
    decreases tsize(old(input)@), 3nat
@start
    hide(body); hide(one); hide(function); hide(expression); hide(grouped); hide(quoted); hide(eval); hide(cond_op); hide(loop_op); hide(looped_quote); hide(match_op); hide(arms_from); hide(one_arm); hide(arm_quote); hide(strung); hide(str_body); hide(str_one); hide(str_grouped);
    hide(append); hide(call); hide(item); hide(open_); hide(close_); hide(go); hide(run); hide(cond); hide(looped); hide(scope); hide(let_op); hide(scope_op);
    broadcast use {synm::group_syn, synm::group_tsize, neatm::group_neat, axiom_column};
    proof { neatm::lemma_neat(input@, line_of(encoder.at())); let l = line_of(encoder.at()); neatm::lemma_step(input@, l); neatm::lemma_step(after(input@, 1), first_end(input@)); if after(input@, 1).len() > 0 { neatm::lemma_step(after(after(input@, 1), 1), first_end(after(input@, 1))); } }
    proof { open_expression(*self.cx, encoder.st(), input@); if let Some(g) = group_at(after(input@, 1), Delimiter::Parenthesis) { open_eval(*self.cx, g.i); } }
@done
@fn m@quote|Quote||parse_condition -> r
    requires neat(old(input)@), tsize(old(input)@) < usize::MAX
    ensures match cond_op(*self.cx, old(input)@) { Some(o) => r is Ok && r->Ok_0.0.lang_supports_eval == o.need && op_of(*self.cx, r->Ok_0.1) == o.op && !(r->Ok_0.1 is String), None => r is Err }
    decreases tsize(old(input)@), 12nat
@start
    hide(body); hide(one); hide(function); hide(expression); hide(grouped); hide(quoted); hide(eval); hide(cond_op); hide(loop_op); hide(looped_quote); hide(match_op); hide(arms_from); hide(one_arm); hide(arm_quote); hide(strung); hide(str_body); hide(str_one); hide(str_grouped);
    hide(append); hide(call); hide(item); hide(open_); hide(close_); hide(go); hide(run); hide(cond); hide(looped); hide(scope); hide(let_op); hide(scope_op);
    broadcast use {synm::group_syn, synm::group_tsize, neatm::group_neat, axiom_column};
    proof { open_cond_op(*self.cx, input@); }
@done
@fn m@quote|Quote||parse_loop -> r
    requires neat(old(input)@), tsize(old(input)@) < usize::MAX
    ensures match loop_op(*self.cx, old(input)@) { Some(o) => r is Ok && r->Ok_0.0.lang_supports_eval == o.need && op_of(*self.cx, r->Ok_0.1) == o.op && !(r->Ok_0.1 is String), None => r is Err }
    decreases tsize(old(input)@), 12nat
@start
    hide(body); hide(one); hide(function); hide(expression); hide(grouped); hide(quoted); hide(eval); hide(cond_op); hide(loop_op); hide(looped_quote); hide(match_op); hide(arms_from); hide(one_arm); hide(arm_quote); hide(strung); hide(str_body); hide(str_one); hide(str_grouped);
    hide(append); hide(call); hide(item); hide(open_); hide(close_); hide(go); hide(run); hide(cond); hide(looped); hide(scope); hide(let_op); hide(scope_op);
    broadcast use {synm::group_syn, synm::group_tsize, neatm::group_neat, axiom_column};
    proof { open_loop_op(*self.cx, input@); let ts = input@; if let Some(k) = read::<For>(ts) { if let Some(p) = read_pat(after(ts, k.n)) { if let Some(l) = read::<In>(after(after(ts, k.n), p.n)) { if let Some(e) = read_cond(after(after(after(ts, k.n), p.n), l.n)) { let t = after(after(after(after(ts, k.n), p.n), l.n), e.n); open_looped_quote(*self.cx, t); if let Some(j) = read::<join>(t) { open_looped_quote(*self.cx, after(after(t, j.n), 1)); } } } } } }
@done
@fn m@quote|Quote||parse_match -> r
    requires neat(old(input)@), tsize(old(input)@) < usize::MAX
    ensures match match_op(*self.cx, old(input)@) { Some(o) => r is Ok && r->Ok_0.0.lang_supports_eval == o.need && op_of(*self.cx, r->Ok_0.1) == o.op && !(r->Ok_0.1 is String), None => r is Err }
    decreases tsize(old(input)@), 12nat
@subst while ! body . is_empty ( ) => let ghost x = *self.cx; let ghost ts0 = body@; proof { assert(arms_(arms@) == tk![]); assert(whole == of_arms(cc, arms_from(x, ts0, tk![], false))); } while ! body . is_empty ( )
@start
    hide(body); hide(one); hide(function); hide(expression); hide(grouped); hide(quoted); hide(eval); hide(cond_op); hide(loop_op); hide(looped_quote); hide(match_op); hide(arms_from); hide(one_arm); hide(arm_quote); hide(strung); hide(str_body); hide(str_one); hide(str_grouped);
    hide(append); hide(call); hide(item); hide(open_); hide(close_); hide(go); hide(run); hide(cond); hide(looped); hide(scope); hide(let_op); hide(scope_op);
    broadcast use {synm::group_syn, synm::group_tsize, neatm::group_neat, axiom_column};
    proof { open_match_op(*self.cx, input@); }
    let ghost whole = match_op(*self.cx, input@); let ghost cc = match read::<Match>(input@) { Some(k) => match read_cond(after(input@, k.n)) { Some(c) => c.v.code(), None => tk![] }, None => tk![] };
@loop 0 while !body.is_empty()
    invariant neat(body@), tsize(body@) <= tsize(old(input)@), tsize(old(input)@) < usize::MAX, x == *self.cx, whole == match_op(*self.cx, old(input)@), cc == condition.code(), whole == of_arms(cc, arms_from(x, body@, arms_(arms@), req.lang_supports_eval)),
    ensures body@.len() == 0
    decreases tsize(body@)
@lstart 0
    broadcast use {synm::group_syn, synm::group_tsize, neatm::group_neat, axiom_column};
    broadcast use lemma_arms_push;
    proof {
        let ts = body@; open_arms_from(x, ts, arms_(arms@), req.lang_supports_eval); open_one_arm(x, ts);
        if let Some(a) = read_attrs(ts) { if let Some(p) = read_pats(after(ts, a.n)) { let t = after(after(ts, a.n), p.n); open_arm_quote(x, t);
            if let Some(k) = read::<If>(t) { if let Some(e) = read::<Expr>(after(t, k.n)) { open_arm_quote(x, after(after(t, k.n), e.n)); } } } }
    }
@end
    proof { open_arms_from(x, body@, arms_(arms@), req.lang_supports_eval); assert(tk![id("match")] + cc =~= tk![id("match")] + condition.code()); }
@done
@fn m@quote|Quote||parse_let -> r
    ensures match let_op(old(input)@) { Some(o) => r is Ok && r->Ok_0.0.lang_supports_eval == o.need && op_of(*self.cx, r->Ok_0.1) == o.op && !(r->Ok_0.1 is String), None => r is Err }
@start
    broadcast use {synm::group_syn};
@done
@fn m@quote|Quote||parse_scope -> r
    ensures match scope_op(*self.cx, old(input)@) { Some(o) => r is Ok && op_of(*self.cx, r->Ok_0) == o.op && !(r->Ok_0 is String) && !o.need, None => r is Err }
@start
    broadcast use {synm::group_syn};
@done
}
}
use quotm::*;
// ---- the macros ----
/// what the compiler gives to a macro
pub uninterp spec fn trees(s: TokenStream) -> Seq<Tree>;
/// syn: a stream is read from its front
#[verifier::external_body]
pub fn xt_buffer(s: TokenStream) -> (r: ParseBuffer) ensures r@ == trees(s) { unimplemented!() }
/// syn: what is left unread is an error (and none is)
pub fn xt_all_read(b: &ParseBuffer) requires b@.len() == 0 { }
/// the code that makes the compiler report an error
pub uninterp spec fn reports(c: Code) -> bool;
impl Error {
    #[verifier::external_body]
    pub fn to_compile_error(&self) -> (r: TokenStream) ensures reports(r@) { unimplemented!() }
}
impl TokenStream {
    #[verifier::external_body]
    pub fn from(s: TokenStream) -> (r: TokenStream) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into(self) -> (r: TokenStream) ensures r@ == self@ { unimplemented!() }
}
pub mod wraps {
use super::*;
use super::quotm::*;
#[verifier::external_body]
pub fn push_or(s: &mut TokenStream) ensures final(s)@ == old(s)@.push(Tk::P('|')) { unimplemented!() }
#[verifier::external_body]
pub fn push_and(s: &mut TokenStream) ensures final(s)@ == old(s)@.push(Tk::P('&')) { unimplemented!() }
/// (`:` on its own)
#[verifier::external_body]
pub fn push_colon_spanned(s: &mut TokenStream, p: Span) ensures final(s)@ == old(s)@.push(Tk::P('\u{2236}')) { unimplemented!() }
#[verifier::external_body]
pub fn push_colon2_spanned(s: &mut TokenStream, p: Span) ensures final(s)@ == old(s)@.push(Tk::P(':')) { unimplemented!() }
#[verifier::external_body]
pub fn push_lt_spanned(s: &mut TokenStream, p: Span) ensures final(s)@ == old(s)@.push(Tk::P('<')) { unimplemented!() }
#[verifier::external_body]
pub fn push_gt_spanned(s: &mut TokenStream, p: Span) ensures final(s)@ == old(s)@.push(Tk::P('>')) { unimplemented!() }
#[verifier::external_body]
pub fn push_underscore_spanned(s: &mut TokenStream, p: Span) ensures final(s)@ == old(s)@.push(Tk::P('_')) { unimplemented!() }
/// A quote that is not ended by a comma is read to its end.
pub proof fn lemma_body_end(x: Ctxt, s: St, ts: Seq<Tree>)
    ensures body(x, s, ts, false) is Some ==> body(x, s, ts, false)->0.rest.len() == 0
    decreases tsize(ts)
{
    open_body(x, s, ts, false);
    if ts.len() > 0 { if let Some(n) = one(x, s, ts) { if tsize(n.rest) < tsize(ts) { lemma_body_end(x, n.st, n.rest); } } }
}
pub broadcast proof fn lemma_quoted_end(x: Ctxt, ts: Seq<Tree>, start: Option<LineColumn>, end: Option<LineColumn>)
    ensures (#[trigger] quoted(x, ts, start, end, false)) is Some ==> quoted(x, ts, start, end, false)->0.rest.len() == 0
{
    let s = St { levels: match start { Some(s) => seq![s.column as nat], None => Seq::<nat>::empty() }, at: start, first: true, out: (Seq::<Tk>::empty(), Seq::<char>::empty()), need: false };
    lemma_body_end(x, s, ts);
}
pub open spec fn check_(x: Ctxt, need: bool) -> Code { if need { call(x, "lang_supports_eval"@, tk![]) } else { tk![] } }
/// the stream is called __genco_macros_toks, and the crate genco
pub open spec fn usual(x: Ctxt) -> bool { x.receiver.code() == tk![id("__genco_macros_toks")] && x.module.code() == tk![id("genco")] }
/// { let mut toks = genco::tokens::Tokens::new(); { let mut toks = &mut toks; CODE } CHECK toks }
pub open spec fn quote_code(x: Ctxt, q: Qt) -> Code {
    tk![brace(tk![id("let"), id("mut")] + x.receiver.code() + tk![Tk::P('=')] + x.module.code() + tk![Tk::P(':'), id("tokens"), Tk::P(':'), id("Tokens"), Tk::P(':'), id("new"), paren(tk![]), Tk::P(';'),
        brace(tk![id("let"), id("mut")] + x.receiver.code() + tk![Tk::P('='), Tk::P('&'), id("mut")] + x.receiver.code() + tk![Tk::P(';')] + q.code)] + check_(x, q.need) + x.receiver.code())]
}
/// { let toks: &mut genco::tokens::Tokens<_> = &mut EXPR; CODE CHECK }
pub open spec fn quote_in_code(x: Ctxt, e: Expr, q: Qt) -> Code {
    tk![brace(tk![id("let")] + x.receiver.code() + tk![Tk::P('\u{2236}'), Tk::P('&'), id("mut")] + x.module.code() + tk![Tk::P(':'), id("tokens"), Tk::P(':'), id("Tokens"), Tk::P('<'), Tk::P('_'), Tk::P('>'), Tk::P('='), Tk::P('&'), id("mut")] + e.code() + tk![Tk::P(';')] + q.code + check_(x, q.need))]
}
/// genco::tokens::from_fn(move |toks| { CODE CHECK })
pub open spec fn quote_fn_code(x: Ctxt, q: Qt) -> Code {
    x.module.code() + tk![Tk::P(':'), id("tokens"), Tk::P(':'), id("from_fn"), paren(tk![id("move"), Tk::P('|')] + x.receiver.code() + tk![Tk::P('|'), brace(q.code + check_(x, q.need))])]
}
/// `EXPR =>` before the quote
pub struct Head { pub e: Expr, pub rest: Seq<Tree> }
pub open spec fn head(ts: Seq<Tree>) -> Option<Head> { match read::<Expr>(ts) { None => None, Some(e) => match read::<FatArrow>(after(ts, e.n)) { None => None, Some(a) => Some(Head { e: e.v, rest: after(after(ts, e.n), a.n) }) } } }
pub open spec fn quote_in_of(x: Ctxt, h: Head) -> Option<Code> { match quoted(x, h.rest, None, None, false) { None => None, Some(q) => Some(quote_in_code(x, h.e, q)) } }
pub open spec fn quote_fn_of(x: Ctxt, ts: Seq<Tree>) -> Option<Code> { match quoted(x, ts, None, None, false) { None => None, Some(q) => Some(quote_fn_code(x, q)) } }
pub open spec fn quote_of(x: Ctxt, ts: Seq<Tree>) -> Option<Code> { match quoted(x, ts, None, None, false) { None => None, Some(q) => Some(quote_code(x, q)) } }
/// the code that is written, or a report of an error if there is none
pub open spec fn written(c: Option<Code>, r: Code) -> bool { match c { Some(c) => r == c, None => reports(r) } }
impl Ctxt {
@fn m@|Ctxt|Default|default -> r
    ensures usual(r)
@start
    broadcast use axiom_path;
@done
}
@type m@quote_in::QuoteIn
@type m@quote_fn::QuoteFn
impl QuoteIn {
@fn m@quote_in|QuoteIn|Parse|parse -> r
    requires neat(old(input)@), tsize(old(input)@) < usize::MAX
    ensures match head(old(input)@) { None => r is Err, Some(h) => exists|x: Ctxt| #[trigger] usual(x) && match quote_in_of(x, h) { Some(c) => r is Ok && r->Ok_0.stream@ == c && final(input)@.len() == 0, None => r is Err } }
@start
    hide(body); hide(one); hide(function); hide(expression); hide(grouped); hide(quoted); hide(eval); hide(cond_op); hide(loop_op); hide(looped_quote); hide(match_op); hide(arms_from); hide(one_arm); hide(arm_quote); hide(strung); hide(str_body); hide(str_one); hide(str_grouped); hide(go); hide(run);
    broadcast use {lemma_quoted_end, seqm::group_seq};
    broadcast use {synm::group_syn, synm::group_tsize, neatm::group_neat};
@done
}
impl QuoteFn {
@fn m@quote_fn|QuoteFn|Parse|parse -> r
    requires neat(old(input)@), tsize(old(input)@) < usize::MAX
    ensures exists|x: Ctxt| #[trigger] usual(x) && match quote_fn_of(x, old(input)@) { Some(c) => r is Ok && r->Ok_0.stream@ == c && final(input)@.len() == 0, None => r is Err }
@start
    hide(body); hide(one); hide(function); hide(expression); hide(grouped); hide(quoted); hide(eval); hide(cond_op); hide(loop_op); hide(looped_quote); hide(match_op); hide(arms_from); hide(one_arm); hide(arm_quote); hide(strung); hide(str_body); hide(str_one); hide(str_grouped); hide(go); hide(run);
    broadcast use {lemma_quoted_end, seqm::group_seq};
@done
}
@fn m@|||quote -> r
    requires neat(trees(input)), tsize(trees(input)) < usize::MAX
    ensures exists|x: Ctxt| #[trigger] usual(x) && written(quote_of(x, trees(input)), r@)
@subst let parser = move | stream : & mut ParseBuffer | parser . parse ( stream ) ; => let mut xt_in = xt_buffer(input);
@subst match parser . parse ( input ) => match { let xt_r = parser.parse(&mut xt_in); match &xt_r { Ok(_) => { xt_all_read(&xt_in); } Err(_) => {} } xt_r }
@start
    hide(body); hide(one); hide(function); hide(expression); hide(grouped); hide(quoted); hide(eval); hide(cond_op); hide(loop_op); hide(looped_quote); hide(match_op); hide(arms_from); hide(one_arm); hide(arm_quote); hide(strung); hide(str_body); hide(str_one); hide(str_grouped); hide(go); hide(run);
    broadcast use {lemma_quoted_end, seqm::group_seq};
@done
@fn m@|||quote_in -> r
    requires neat(trees(input)), tsize(trees(input)) < usize::MAX
    ensures match head(trees(input)) { None => reports(r@), Some(h) => exists|x: Ctxt| #[trigger] usual(x) && written(quote_in_of(x, h), r@) }
@subst parse :: < QuoteIn > ( input ) => QuoteIn::parse(&mut xt_buffer(input))
@done
@fn m@|||quote_fn -> r
    requires neat(trees(input)), tsize(trees(input)) < usize::MAX
    ensures exists|x: Ctxt| #[trigger] usual(x) && written(quote_fn_of(x, trees(input)), r@)
@subst parse :: < QuoteFn > ( input ) => QuoteFn::parse(&mut xt_buffer(input))
@done
}
} // verus!
fn main() {}
