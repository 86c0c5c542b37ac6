#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case)]
use vstd::prelude::*;
macro_rules! tki { [$($e:expr),* $(,)?] => { Seq::<Tk>::empty()$(.push($e))* } }
macro_rules! tk { [$($t:tt)*] => { verus_proof_macro_exprs!(tki!($($t)*)) } }
verus! {
// ---- the code that the macros write, as trees of tokens ----
pub enum Tk { Id(Seq<char>), P(char), S(Seq<char>), G(Delimiter, Seq<Tk>), X(int) }
pub type Code = Seq<Tk>;
pub mod seqm {
use vstd::prelude::*;
pub broadcast proof fn lemma_e_l<A>(s: Seq<A>) ensures #[trigger] (Seq::<A>::empty() + s) == s { assert(Seq::<A>::empty() + s =~= s); }
pub broadcast proof fn lemma_e_r<A>(s: Seq<A>) ensures #[trigger] (s + Seq::<A>::empty()) == s { assert(s + Seq::<A>::empty() =~= s); }
pub broadcast proof fn lemma_a_push<A>(a: Seq<A>, b: Seq<A>, x: A) ensures #[trigger] (a + b.push(x)) == (a + b).push(x) { assert(a + b.push(x) =~= (a + b).push(x)); }
pub broadcast proof fn lemma_a_a<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast group group_seq { lemma_e_l, lemma_e_r, lemma_a_push, lemma_a_a }
}
broadcast use seqm::group_seq;
/// proc_macro2::TokenStream: a sequence of tokens
#[verifier::external_body]
pub struct TokenStream { t: () }
impl TokenStream {
    pub uninterp spec fn view(&self) -> Code;
    /// proc_macro2: a new stream is empty
    #[verifier::external_body]
    pub fn new() -> (r: TokenStream) ensures r@ == Seq::<Tk>::empty() { unimplemented!() }
    /// proc_macro2: extend appends
    #[verifier::external_body]
    pub fn extend(&mut self, o: TokenStream) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
/// quote: to_tokens appends the code of a value
pub trait ToTokens: Sized {
    spec fn toks(&self) -> Code;
    fn to_tokens(&self, s: &mut TokenStream) ensures final(s)@ == old(s)@ + self.toks();
}
impl ToTokens for TokenStream { open spec fn toks(&self) -> Code { self@ }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
impl<T: ToTokens> ToTokens for &T { open spec fn toks(&self) -> Code { (*self).toks() }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
impl<T: ToTokens> ToTokens for Option<T> { open spec fn toks(&self) -> Code { match self { Some(x) => x.toks(), None => tk![] } }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
impl ToTokens for bool { open spec fn toks(&self) -> Code { tk![Tk::Id(if *self { "true"@ } else { "false"@ })] }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Span { t: () }
impl Span {
    #[verifier::external_body]
    pub fn call_site() -> Span { unimplemented!() }
    #[verifier::external_body]
    pub fn __into_span(self) -> (r: Span) ensures r == self { unimplemented!() }
    /// syn: the span of a span (or of a pair of delimiters, taken as one span here) is itself
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == *self { unimplemented!() }
    /// proc_macro2: the compiler's own span
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: PSpan) ensures r.of() == self { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, o: Span) -> Option<Span> { unimplemented!() }
}
/// where a span starts and ends, as the compiler gives it
pub uninterp spec fn starts(s: Span) -> LineColumn;
pub uninterp spec fn ends(s: Span) -> LineColumn;
/// no source line is as long as the address space
pub broadcast axiom fn axiom_column(s: Span) ensures #[trigger] starts(s).column < usize::MAX;
/// proc_macro::Span
#[verifier::external_body]
pub struct PSpan { t: () }
impl PSpan {
    pub uninterp spec fn of(&self) -> Span;
    pub uninterp spec fn lc(&self) -> LineColumn;
    /// proc_macro: an empty span where this one starts
    #[verifier::external_body]
    pub fn start(&self) -> (r: PSpan) ensures r.lc() == starts(self.of()) { unimplemented!() }
    /// proc_macro: an empty span where this one ends
    #[verifier::external_body]
    pub fn end(&self) -> (r: PSpan) ensures r.lc() == ends(self.of()) { unimplemented!() }
    #[verifier::external_body]
    pub fn line(&self) -> (r: usize) ensures r == self.lc().line { unimplemented!() }
    #[verifier::external_body]
    pub fn column(&self) -> (r: usize) ensures r == self.lc().column { unimplemented!() }
}
#[verifier::external_body]
pub fn get_span(s: Span) -> Span { unimplemented!() }
#[verifier::external_body]
pub struct Ident { t: () }
impl Ident {
    pub uninterp spec fn code(&self) -> Code;
    pub uninterp spec fn name(&self) -> Seq<char>;
    pub uninterp spec fn sp(&self) -> Span;
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.sp() { unimplemented!() }
    /// proc_macro2: an identifier is written as its name
    #[verifier::external_body]
    pub fn new(s: &str, span: Span) -> (r: Ident) ensures r.name() == s@, r.code() == tk![Tk::Id(s@)] { unimplemented!() }
    /// syn: an identifier is a path segment
    #[verifier::external_body]
    pub fn into(self) -> (r: PathSegment) ensures r.code() == self.code() { unimplemented!() }
    /// proc_macro2: an identifier is shown as its name
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.name() { unimplemented!() }
}
impl ToTokens for Ident { open spec fn toks(&self) -> Code { self.code() }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
/// syn: a path is its segments with `::` between them
pub struct Path { pub leading_colon: Option<PathSep>, pub segments: Punctuated }
#[verifier::external_body]
pub struct PathSep { t: () }
#[verifier::external_body]
pub struct Punctuated { t: () }
#[verifier::external_body]
pub struct PathSegment { t: () }
impl PathSegment { pub uninterp spec fn code(&self) -> Code; }
impl Punctuated {
    pub uninterp spec fn code(&self) -> Code;
    #[verifier::external_body]
    pub fn default() -> (r: Punctuated) ensures r.code() == tk![] { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, s: PathSegment) ensures final(self).code() == (if old(self).code().len() == 0 { s.code() } else { old(self).code() + tk![Tk::P(':')] + s.code() }) { unimplemented!() }
}
impl Path { pub uninterp spec fn code(&self) -> Code; }
pub broadcast axiom fn axiom_path(p: Path) ensures #[trigger] p.code() == (if p.leading_colon is Some { tk![Tk::P(':')] + p.segments.code() } else { p.segments.code() });
impl ToTokens for Path { open spec fn toks(&self) -> Code { self.code() }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
#[verifier::external_body]
pub struct Expr { t: () }
impl Expr { pub uninterp spec fn code(&self) -> Code;
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) { unimplemented!() } }
impl ToTokens for Expr { open spec fn toks(&self) -> Code { self.code() }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
#[verifier::external_body]
pub struct Pat { t: () }
impl Pat { pub uninterp spec fn code(&self) -> Code; }
impl ToTokens for Pat { open spec fn toks(&self) -> Code { self.code() }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
#[verifier::external_body]
pub struct Attribute { t: () }
impl Attribute { pub uninterp spec fn code(&self) -> Code; }
impl ToTokens for Attribute { open spec fn toks(&self) -> Code { self.code() }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
/// a token of the input; `text` is what proc_macro2 prints for it
#[verifier::external_body]
pub struct TokenTree { t: () }
impl TokenTree {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn sp(&self) -> Span;
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.sp() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
/// a string literal in the code, by its value
#[verifier::external_body]
pub struct LitStr { t: () }
impl LitStr {
    pub uninterp spec fn val(&self) -> Seq<char>;
    pub uninterp spec fn sp(&self) -> Span;
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.sp() { unimplemented!() }
    /// syn: the value of the literal
    #[verifier::external_body]
    pub fn value(&self) -> (r: String) ensures r@ == self.val() { unimplemented!() }
    /// syn: the literal has the value it is made of
    #[verifier::external_body]
    pub fn new(s: &str, span: Span) -> (r: LitStr) ensures r.val() == s@ { unimplemented!() }
}
impl ToTokens for LitStr { open spec fn toks(&self) -> Code { tk![Tk::S(self.val())] }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() } }
#[verifier::external_body]
pub struct Error { t: () }
impl Error {
    #[verifier::external_body]
    pub fn new<M>(span: Span, m: M) -> Error { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub struct FmtArgs { t: () }
impl FmtArgs { pub uninterp spec fn text(&self) -> Seq<char>; }
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
/// how numbers are shown (in error messages) is not specified
pub uninterp spec fn shown_number(n: usize) -> Seq<char>;
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { shown_number(*self) } }
impl Shown for &str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for &TokenTree { open spec fn shown(&self) -> Seq<char> { self.text() } }
impl Shown for TokenTree { open spec fn shown(&self) -> Seq<char> { self.text() } }
#[verifier::external_body]
pub fn fmt_lit(s: &str) -> (r: FmtArgs) ensures r.text() == s@ { unimplemented!() }
/// core: {} writes what Display shows
#[verifier::external_body]
pub fn fmt_display<T: Shown>(s: &T) -> (r: FmtArgs) ensures r.text() == s.shown() { unimplemented!() }
#[verifier::external_body]
pub fn fmt_cat(a: FmtArgs, b: FmtArgs) -> FmtArgs { unimplemented!() }
#[verifier::external_body]
pub fn xt_format(a: FmtArgs) -> String { unimplemented!() }
pub fn panic(s: &str) requires false { }

// ---- what quote's expansions call (quote::__private) ----
#[verifier::external_body]
pub fn push_ident(s: &mut TokenStream, n: &str) ensures final(s)@ == old(s)@.push(Tk::Id(n@)) { unimplemented!() }
#[verifier::external_body]
pub fn push_ident_spanned(s: &mut TokenStream, p: Span, n: &str) ensures final(s)@ == old(s)@.push(Tk::Id(n@)) { unimplemented!() }
#[verifier::external_body]
pub fn push_group(s: &mut TokenStream, d: Delimiter, i: TokenStream) ensures final(s)@ == old(s)@.push(Tk::G(d, i@)) { unimplemented!() }
#[verifier::external_body]
pub fn push_group_spanned(s: &mut TokenStream, p: Span, d: Delimiter, i: TokenStream) ensures final(s)@ == old(s)@.push(Tk::G(d, i@)) { unimplemented!() }
#[verifier::external_body]
pub fn push_dot(s: &mut TokenStream) ensures final(s)@ == old(s)@.push(Tk::P('.')) { unimplemented!() }
#[verifier::external_body]
pub fn push_dot_spanned(s: &mut TokenStream, p: Span) ensures final(s)@ == old(s)@.push(Tk::P('.')) { unimplemented!() }
#[verifier::external_body]
pub fn push_semi(s: &mut TokenStream) ensures final(s)@ == old(s)@.push(Tk::P(';')) { unimplemented!() }
#[verifier::external_body]
pub fn push_semi_spanned(s: &mut TokenStream, p: Span) ensures final(s)@ == old(s)@.push(Tk::P(';')) { unimplemented!() }
#[verifier::external_body]
pub fn push_eq(s: &mut TokenStream) ensures final(s)@ == old(s)@.push(Tk::P('=')) { unimplemented!() }
#[verifier::external_body]
pub fn push_eq_spanned(s: &mut TokenStream, p: Span) ensures final(s)@ == old(s)@.push(Tk::P('=')) { unimplemented!() }
#[verifier::external_body]
pub fn push_and_spanned(s: &mut TokenStream, p: Span) ensures final(s)@ == old(s)@.push(Tk::P('&')) { unimplemented!() }
#[verifier::external_body]
pub fn push_star_spanned(s: &mut TokenStream, p: Span) ensures final(s)@ == old(s)@.push(Tk::P('*')) { unimplemented!() }
#[verifier::external_body]
pub fn push_comma(s: &mut TokenStream) ensures final(s)@ == old(s)@.push(Tk::P(',')) { unimplemented!() }
/// `::` is one symbol here
#[verifier::external_body]
pub fn push_colon2(s: &mut TokenStream) ensures final(s)@ == old(s)@.push(Tk::P(':')) { unimplemented!() }
/// `=>` is one symbol here
#[verifier::external_body]
pub fn push_fat_arrow(s: &mut TokenStream) ensures final(s)@ == old(s)@.push(Tk::P('>')) { unimplemented!() }

@type m@Ctxt
@type m@ast::Delimiter derive Clone,Copy
@type m@fake::LineColumn derive Clone,Copy,PartialEq,Eq,Structural
@type m@cursor::Cursor derive Clone,Copy
@type m@requirements::Requirements derive Clone,Copy
/// finds where spans are; its buffer is only used where the compiler does not know positions
#[verifier::external_body]
pub struct Buf { t: () }
impl Cursor {
@fn m@cursor|Cursor||new -> r
    ensures r.start == start, r.end == end
@done
@fn m@cursor|Cursor||first_character -> r
    requires self.start.column < usize::MAX
    ensures r.start == self.start, r.end.line == self.start.line, r.end.column == self.start.column + 1
@done
@fn m@cursor|Cursor||last_character -> r
    ensures r.end == self.end, r.start.line == self.end.line, r.start.column == if self.end.column > 0 { self.end.column - 1 } else { 0 }
@done
}
impl LineColumn {
@fn m@fake|LineColumn||start -> r
    ensures r == Some(starts(span))
@done
@fn m@fake|LineColumn||end -> r
    ensures r == Some(ends(span))
@done
}
impl Buf {
    #[verifier::external_body]
    pub fn default() -> Buf { unimplemented!() }
@ext m@fake|Buf||find_line_column
    /// looks for positions in the Debug form of a span, for compilers that do not give them
    #[verifier::external_body]
    pub fn find_line_column(&self, span: Span) -> Result<(usize, usize)> { unimplemented!() }
@fn m@fake|Buf||cursor -> r
    ensures r is Ok, r->Ok_0.start == starts(span), r->Ok_0.end == ends(span)
@done
@fn m@fake|Buf||start -> r
    ensures r is Ok, r->Ok_0 == starts(span)
@done
@fn m@fake|Buf||end -> r
    ensures r is Ok, r->Ok_0 == ends(span)
@done
@fn m@fake|Buf||join -> r
    ensures r is Ok, r->Ok_0.start == starts(a), r->Ok_0.end == ends(b)
@done
}

// ---- the vocabulary of the code that is written ----
pub open spec fn id(s: &str) -> Tk { Tk::Id(s@) }
pub open spec fn paren(c: Code) -> Tk { Tk::G(Delimiter::Parenthesis, c) }
pub open spec fn brace(c: Code) -> Tk { Tk::G(Delimiter::Brace, c) }
/// `receiver.name(args);`
pub open spec fn call(x: Ctxt, name: Seq<char>, args: Code) -> Code { x.receiver.code() + tk![Tk::P('.'), Tk::Id(name), paren(args), Tk::P(';')] }
/// `receiver.append(args);`
pub open spec fn append(x: Ctxt, args: Code) -> Code { call(x, "append"@, args) }
/// `module::tokens::a::b`
pub open spec fn item(x: Ctxt, a: Seq<char>, b: Seq<char>) -> Code { x.module.code() + tk![Tk::P(':'), id("tokens"), Tk::P(':'), Tk::Id(a), Tk::P(':'), Tk::Id(b)] }
pub open spec fn static_(x: Ctxt, s: Seq<char>) -> Code { append(x, item(x, "ItemStr"@, "Static"@).push(paren(tk![Tk::S(s)]))) }
pub open spec fn open_(x: Ctxt, e: bool) -> Code { append(x, item(x, "Item"@, "OpenQuote"@).push(paren(tk![Tk::Id(if e { "true"@ } else { "false"@ })]))) }
pub open spec fn close_(x: Ctxt) -> Code { append(x, item(x, "Item"@, "CloseQuote"@)) }
/// text that is waiting to be written
pub open spec fn wait_(x: Ctxt, b: Seq<char>) -> Code { if b.len() == 0 { tk![] } else { static_(x, b) } }
// ---- what happens to the output ----
pub enum Op {
    /// text that joins the text before it
    Lit(Seq<char>),
    /// code, after the text before it is written
    Code(Code),
    /// code that cannot see the stream, before the text that waits
    Quiet(Code),
}
pub type Out = (Code, Seq<char>);
pub open spec fn run1(x: Ctxt, o: Out, p: Op) -> Out {
    match p {
        Op::Lit(t) => (o.0, o.1 + t),
        Op::Code(c) => (o.0 + wait_(x, o.1) + c, Seq::<char>::empty()),
        Op::Quiet(c) => (o.0 + c, o.1),
    }
}
pub open spec fn run(x: Ctxt, o: Out, ps: Seq<Op>) -> Out decreases ps.len() {
    if ps.len() == 0 { o } else { run1(x, run(x, o, ps.drop_last()), ps.last()) }
}
pub proof fn lemma_run_cat(x: Ctxt, o: Out, a: Seq<Op>, b: Seq<Op>)
    ensures run(x, o, a + b) == run(x, run(x, o, a), b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        lemma_run_cat(x, o, a, b.drop_last());
    }
}
pub broadcast proof fn lemma_run_0(x: Ctxt, o: Out)
    ensures #[trigger] run(x, o, Seq::<Op>::empty()) == o
{ }
pub broadcast proof fn lemma_run_push(x: Ctxt, o: Out, ps: Seq<Op>, p: Op)
    ensures #[trigger] run(x, o, ps.push(p)) == run1(x, run(x, o, ps), p)
{ assert(ps.push(p).drop_last() =~= ps); assert(ps.push(p).last() == p); }

