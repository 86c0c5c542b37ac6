// ---- what is read: trees of tokens ----
/// a token, or a group of them in delimiters (groups without delimiters, from macro_rules fragments, are left out)
pub enum Tree { Leaf(TokenTree), Group(Delimiter, Span, Seq<Tree>) }
pub open spec fn tspan(t: Tree) -> Span { match t { Tree::Leaf(t) => t.sp(), Tree::Group(_, s, _) => s } }
/// what is behind the first n
#[verifier::opaque]
pub open spec fn after(ts: Seq<Tree>, n: nat) -> Seq<Tree> { ts.skip(n as int) }
/// the number of trees, on all levels
#[verifier::opaque]
pub open spec fn tsize(ts: Seq<Tree>) -> nat decreases ts { if ts.len() == 0 { 0 } else { 1 + (match ts[0] { Tree::Leaf(_) => 0, Tree::Group(_, _, s) => tsize(s) }) + tsize(ts.skip(1)) } }
/// a group: its delimiters and what is in it
pub struct Gr { pub s: Span, pub i: Seq<Tree> }
pub open spec fn group_at(ts: Seq<Tree>, d: Delimiter) -> Option<Gr> {
    if ts.len() > 0 { match ts[0] { Tree::Group(e, s, i) => if e == d { Some(Gr { s, i }) } else { None }, Tree::Leaf(_) => None } } else { None }
}
/// something that is read: its value, and how many trees it takes
pub struct Rd<T> { pub v: T, pub n: nat }
/// is there a T?
pub uninterp spec fn is_at<T>(ts: Seq<Tree>) -> bool;
/// the T that is there, and how many trees it takes
pub uninterp spec fn read<T>(ts: Seq<Tree>) -> Option<Rd<T>>;
/// an expression that ends before a `{`
pub uninterp spec fn read_cond(ts: Seq<Tree>) -> Option<Rd<Expr>>;
/// a pattern
pub uninterp spec fn read_pat(ts: Seq<Tree>) -> Option<Rd<Pat>>;
/// patterns separated by |
pub uninterp spec fn read_pats(ts: Seq<Tree>) -> Option<Rd<Pat>>;
/// attributes
pub uninterp spec fn read_attrs(ts: Seq<Tree>) -> Option<Rd<Seq<Attribute>>>;

/// what is left of an input
#[verifier::external_body]
pub struct ParseBuffer { t: () }
impl ParseBuffer {
    pub uninterp spec fn view(&self) -> Seq<Tree>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    /// syn: peek looks for a token and takes nothing
    #[verifier::external_body]
    pub fn peek<T>(&self) -> (r: bool) ensures r == is_at::<T>(self@) { unimplemented!() }
    /// syn: peek2 looks behind the next tree
    #[verifier::external_body]
    pub fn peek2<T>(&self) -> (r: bool) ensures is_at::<Dollar>(self@) ==> r == is_at::<T>(after(self@, 1)) { unimplemented!() }
    /// syn: parse takes a T from the front, or fails
    #[verifier::external_body]
    pub fn parse<T>(&mut self) -> (r: Result<T>)
        ensures match read::<T>(old(self)@) { Some(x) => r is Ok && r->Ok_0 == x.v && x.n <= old(self)@.len() && final(self)@ == after(old(self)@, x.n), None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fork(&self) -> (r: ParseBuffer) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> Span { unimplemented!() }
    #[verifier::external_body]
    pub fn error(&self, m: &str) -> Error { unimplemented!() }
}
impl Expr {
    #[verifier::external_body]
    pub fn parse_without_eager_brace(input: &mut ParseBuffer) -> (r: Result<Expr>)
        ensures match read_cond(old(input)@) { Some(x) => r is Ok && r->Ok_0 == x.v && x.n <= old(input)@.len() && final(input)@ == after(old(input)@, x.n), None => r is Err }
    { unimplemented!() }
}
impl Pat {
    #[verifier::external_body]
    pub fn parse_single(input: &mut ParseBuffer) -> (r: Result<Pat>)
        ensures match read_pat(old(input)@) { Some(x) => r is Ok && r->Ok_0 == x.v && x.n <= old(input)@.len() && final(input)@ == after(old(input)@, x.n), None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_multi_with_leading_vert(input: &mut ParseBuffer) -> (r: Result<Pat>)
        ensures match read_pats(old(input)@) { Some(x) => r is Ok && r->Ok_0 == x.v && x.n <= old(input)@.len() && final(input)@ == after(old(input)@, x.n), None => r is Err }
    { unimplemented!() }
}
impl Attribute {
    #[verifier::external_body]
    pub fn parse_outer(input: &mut ParseBuffer) -> (r: Result<Vec<Attribute>>)
        ensures match read_attrs(old(input)@) { Some(x) => r is Ok && r->Ok_0@ == x.v && x.n <= old(input)@.len() && final(input)@ == after(old(input)@, x.n), None => r is Err }
    { unimplemented!() }
}
pub struct Braces { pub token: Brace, pub content: ParseBuffer }
pub struct Parens { pub token: Paren, pub content: ParseBuffer }
pub struct Brackets { pub token: Bracket, pub content: ParseBuffer }
/// syn: a group is taken as a whole, and gives its content
#[verifier::external_body]
pub fn parse_braces(input: &mut ParseBuffer) -> (r: Result<Braces>)
    ensures match group_at(old(input)@, Delimiter::Brace) { Some(g) => r is Ok && r->Ok_0.token.span == g.s && r->Ok_0.content@ == g.i && final(input)@ == after(old(input)@, 1), None => r is Err }
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_parens(input: &mut ParseBuffer) -> (r: Result<Parens>)
    ensures match group_at(old(input)@, Delimiter::Parenthesis) { Some(g) => r is Ok && r->Ok_0.token.span == g.s && r->Ok_0.content@ == g.i && final(input)@ == after(old(input)@, 1), None => r is Err }
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_brackets(input: &mut ParseBuffer) -> (r: Result<Brackets>)
    ensures match group_at(old(input)@, Delimiter::Bracket) { Some(g) => r is Ok && r->Ok_0.token.span == g.s && r->Ok_0.content@ == g.i && final(input)@ == after(old(input)@, 1), None => r is Err }
{ unimplemented!() }

// ---- tokens ----
pub struct Paren { pub span: Span }
pub struct Brace { pub span: Span }
pub struct Bracket { pub span: Span }
pub struct Dollar { pub spans: [Span; 1] }
impl Dollar {
    pub open spec fn sp(&self) -> Span { self.spans@[0] }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.sp() { unimplemented!() }
}
#[verifier::external_body] pub struct If { t: () }
#[verifier::external_body] pub struct Else { t: () }
#[verifier::external_body] pub struct For { t: () }
#[verifier::external_body] pub struct In { t: () }
#[verifier::external_body] pub struct Match { t: () }
#[verifier::external_body] pub struct Let { t: () }
#[verifier::external_body] pub struct Ref { t: () }
#[verifier::external_body] pub struct Const { t: () }
#[verifier::external_body] pub struct Underscore { t: () }
#[verifier::external_body] pub struct Comma { t: () }
#[verifier::external_body] pub struct FatArrow { t: () }
#[verifier::external_body] pub struct Eq { t: () }
#[verifier::external_body] pub struct join { t: () }
#[verifier::external_body] pub struct LitChar { t: () }
impl LitChar {
    pub uninterp spec fn val(&self) -> char;
    #[verifier::external_body]
    pub fn value(&self) -> (r: char) ensures r == self.val() { unimplemented!() }
}
pub enum Spacing { Alone, Joint }
#[verifier::external_body] pub struct Punct { t: () }
impl Punct {
    pub uninterp spec fn ch(&self) -> char;
    #[verifier::external_body]
    pub fn new(c: char, s: Spacing) -> (r: Punct) ensures r.ch() == c { unimplemented!() }
    #[verifier::external_body]
    pub fn set_span(&mut self, s: Span) ensures final(self).ch() == old(self).ch() { unimplemented!() }
    /// proc_macro2: a punctuation character is shown as itself
    #[verifier::external_body]
    pub fn into(self) -> (r: TokenTree) ensures r.text() == Seq::<char>::empty().push(self.ch()) { unimplemented!() }
}
/// what peek finds is what parse takes: one or more trees that are not groups
pub trait Token {}
/// exactly one
pub trait Single { spec fn at(&self) -> Span; }
/// anything that takes at least one tree
pub trait Some1 {}
impl Token for Dollar {} impl Token for If {} impl Token for Else {} impl Token for For {} impl Token for In {} impl Token for Match {} impl Token for Let {} impl Token for Ref {} impl Token for Const {}
impl Token for Underscore {} impl Token for Comma {} impl Token for FatArrow {} impl Token for Eq {} impl Token for join {} impl Token for LitChar {} impl Token for LitStr {} impl Token for Ident {}
impl Single for Dollar { open spec fn at(&self) -> Span { self.sp() } }
impl Single for Ident { open spec fn at(&self) -> Span { self.sp() } }
impl Single for LitStr { open spec fn at(&self) -> Span { self.sp() } }
impl Single for TokenTree { open spec fn at(&self) -> Span { self.sp() } }
pub mod synm {
use super::*;
/// syn: no more is taken than there is
pub broadcast axiom fn axiom_read<T>(ts: Seq<Tree>) ensures (#[trigger] read::<T>(ts)) is Some ==> read::<T>(ts)->0.n <= ts.len();
/// syn: peek and parse of tokens agree
pub broadcast axiom fn axiom_token<T: Token>(ts: Seq<Tree>) ensures #![trigger read::<T>(ts)] #![trigger is_at::<T>(ts)] read::<T>(ts) is Some <==> is_at::<T>(ts), is_at::<T>(ts) ==> ts.len() > 0 && 1 <= read::<T>(ts)->0.n <= ts.len() && ts[0] is Leaf;
/// syn: the span of a single token
pub broadcast axiom fn axiom_single<T: Single>(ts: Seq<Tree>) ensures (#[trigger] read::<T>(ts)) is Some ==> read::<T>(ts)->0.n == 1 && ts.len() > 0 && read::<T>(ts)->0.v.at() == tspan(ts[0]);
/// syn: any tree is a TokenTree
pub broadcast axiom fn axiom_tt(ts: Seq<Tree>) ensures (#[trigger] read::<TokenTree>(ts)) is Some <==> ts.len() > 0, ts.len() > 0 && ts[0] is Leaf ==> read::<TokenTree>(ts)->0.v == ts[0]->Leaf_0;
/// syn: everything there is is a TokenStream
pub broadcast axiom fn axiom_stream(ts: Seq<Tree>) ensures (#[trigger] read::<TokenStream>(ts)) is Some, read::<TokenStream>(ts)->0.n == ts.len();
/// syn: an Option is there or not
pub broadcast axiom fn axiom_opt(ts: Seq<Tree>) ensures (#[trigger] read::<Option<LitStr>>(ts)) == (match read::<LitStr>(ts) { Some(x) => Some(Rd { v: Some(x.v), n: x.n }), None => Some(Rd { v: None::<LitStr>, n: 0nat }) });
pub broadcast axiom fn axiom_expr(ts: Seq<Tree>) ensures (#[trigger] read::<Expr>(ts)) is Some ==> read::<Expr>(ts)->0.n >= 1;
pub broadcast axiom fn axiom_cond(ts: Seq<Tree>) ensures (#[trigger] read_cond(ts)) is Some ==> 1 <= read_cond(ts)->0.n <= ts.len();
pub broadcast axiom fn axiom_pat(ts: Seq<Tree>) ensures (#[trigger] read_pat(ts)) is Some ==> 1 <= read_pat(ts)->0.n <= ts.len();
pub broadcast axiom fn axiom_pats(ts: Seq<Tree>) ensures (#[trigger] read_pats(ts)) is Some ==> 1 <= read_pats(ts)->0.n <= ts.len();
pub broadcast axiom fn axiom_attrs(ts: Seq<Tree>) ensures (#[trigger] read_attrs(ts)) is Some ==> read_attrs(ts)->0.n <= ts.len();
/// syn: an opening delimiter is there where a group is
pub broadcast axiom fn axiom_paren(ts: Seq<Tree>) ensures #[trigger] is_at::<Paren>(ts) == (group_at(ts, Delimiter::Parenthesis) is Some);
pub broadcast axiom fn axiom_brace(ts: Seq<Tree>) ensures #[trigger] is_at::<Brace>(ts) == (group_at(ts, Delimiter::Brace) is Some);
pub broadcast axiom fn axiom_bracket(ts: Seq<Tree>) ensures #[trigger] is_at::<Bracket>(ts) == (group_at(ts, Delimiter::Bracket) is Some);
pub broadcast group group_syn { axiom_read, axiom_token, axiom_single, axiom_tt, axiom_stream, axiom_opt, axiom_expr, axiom_cond, axiom_pat, axiom_pats, axiom_attrs, axiom_paren, axiom_brace, axiom_bracket }

pub broadcast proof fn lemma_after_len(ts: Seq<Tree>, n: nat) ensures n <= ts.len() ==> (#[trigger] after(ts, n)).len() == ts.len() - n { reveal(after); }
pub proof fn lemma_tsize_skip(ts: Seq<Tree>, n: int)
    requires 0 <= n <= ts.len()
    ensures tsize(ts.skip(n)) + n <= tsize(ts)
    decreases n
{
    reveal(tsize);
    if n == 0 { assert(ts.skip(0) =~= ts); }
    else { lemma_tsize_skip(ts.skip(1), n - 1); assert(ts.skip(1).skip(n - 1) =~= ts.skip(n)); }
}
pub broadcast proof fn lemma_tsize_after(ts: Seq<Tree>, n: nat) ensures n <= ts.len() ==> #[trigger] tsize(after(ts, n)) + n <= tsize(ts) { reveal(after); if n <= ts.len() { lemma_tsize_skip(ts, n as int); } }
pub broadcast proof fn lemma_tsize_group(ts: Seq<Tree>, d: Delimiter)
    ensures (#[trigger] group_at(ts, d)) is Some ==> tsize(group_at(ts, d)->0.i) < tsize(ts) && ts.len() > 0 && tspan(ts[0]) == group_at(ts, d)->0.s
{ reveal(tsize); }
pub broadcast group group_tsize { lemma_after_len, lemma_tsize_after, lemma_tsize_group }
}
// ---- tokens stand in the order of their lines ----
pub open spec fn first_line(ts: Seq<Tree>) -> nat { starts(tspan(ts[0])).line as nat }
pub open spec fn first_end(ts: Seq<Tree>) -> nat { ends(tspan(ts[0])).line as nat }
#[verifier::opaque]
pub open spec fn last_line(ts: Seq<Tree>, lo: nat) -> nat { if ts.len() == 0 { lo } else { ends(tspan(ts.last())).line as nat } }
/// none starts above where the one before it ends (the first one not above `lo`), and groups contain what is in them
#[verifier::opaque]
pub open spec fn orderly(ts: Seq<Tree>, lo: nat) -> bool decreases ts {
    ts.len() == 0 || {
        &&& lo <= first_line(ts) <= first_end(ts)
        &&& (match ts[0] { Tree::Leaf(_) => true, Tree::Group(_, _, i) => orderly(i, first_line(ts)) && last_line(i, first_line(ts)) <= first_end(ts) })
        &&& orderly(ts.skip(1), first_end(ts))
    }
}
#[verifier::opaque]
pub open spec fn neat(ts: Seq<Tree>) -> bool { orderly(ts, 0) }
pub mod neatm {
use super::*;
/// one step
pub broadcast proof fn lemma_step(ts: Seq<Tree>, lo: nat)
    requires #[trigger] orderly(ts, lo)
    ensures
        ts.len() > 0 ==> lo <= first_line(ts) <= first_end(ts) && orderly(after(ts, 1), first_end(ts)) && last_line(after(ts, 1), first_end(ts)) == last_line(ts, lo),
        ts.len() == 0 ==> last_line(ts, lo) == lo,
{ reveal(orderly); reveal(last_line); reveal(after); }
pub proof fn lemma_lo(ts: Seq<Tree>, lo: nat, m: nat) requires orderly(ts, lo), m <= lo ensures orderly(ts, m) { reveal(orderly); }
pub proof fn lemma_end(ts: Seq<Tree>, lo: nat) requires orderly(ts, lo) ensures lo <= last_line(ts, lo) decreases ts
{ reveal(orderly); reveal(last_line); if ts.len() > 0 { lemma_end(ts.skip(1), first_end(ts)); } }
pub proof fn lemma_neat(ts: Seq<Tree>, lo: nat) requires orderly(ts, lo) ensures neat(ts) { reveal(neat); lemma_lo(ts, lo, 0); }
pub broadcast proof fn lemma_neat_0(ts: Seq<Tree>) ensures (#[trigger] neat(ts)) == orderly(ts, 0) { reveal(neat); }
proof fn lemma_orderly(ts: Seq<Tree>, lo: nat, n: nat)
    requires orderly(ts, lo), 1 <= n <= ts.len()
    ensures orderly(ts.skip(n as int), ends(tspan(ts[n - 1])).line as nat)
    decreases n
{
    reveal(orderly);
    if n > 1 { let b = first_end(ts); lemma_orderly(ts.skip(1), b, (n - 1) as nat); assert(ts.skip(1).skip(n - 1) =~= ts.skip(n as int)); }
}
pub broadcast proof fn lemma_neat_after(ts: Seq<Tree>, n: nat) requires neat(ts), n <= ts.len() ensures #[trigger] neat(after(ts, n))
{ reveal(neat); reveal(after); if n > 0 { lemma_orderly(ts, 0, n as nat); lemma_lo(ts.skip(n as int), ends(tspan(ts[n - 1])).line as nat, 0); } else { assert(ts.skip(0) =~= ts); } }
/// groups
pub broadcast proof fn lemma_neat_group(ts: Seq<Tree>, d: Delimiter)
    requires neat(ts)
    ensures (#[trigger] group_at(ts, d)) is Some ==> ({ let g = group_at(ts, d)->0; let a = starts(g.s).line as nat; orderly(g.i, a) && neat(g.i) && last_line(g.i, a) <= ends(g.s).line && a <= ends(g.s).line })
{ reveal(neat); reveal(orderly); if group_at(ts, d) is Some { let g = group_at(ts, d)->0; lemma_lo(g.i, starts(g.s).line as nat, 0); } }
pub broadcast group group_neat { lemma_neat_after, lemma_neat_group, lemma_neat_0 }
}
/// core: a string literal in a pattern matches a string of the same characters
#[verifier::external_body]
pub fn xt_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
