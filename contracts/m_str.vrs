@include mac_core.vrs
@include str_core.vrs
// ---- what it comes to for a whole string ----
/// what a quoted string is made of
pub enum Piece { Char(char), Tt(TokenTree), Str(String), Ident(Ident), Stream(TokenStream), Expr(Expr) }
pub struct Part { pub piece: Piece, pub from: LineColumn, pub to: LineColumn }
pub open spec fn evals(p: Piece) -> bool { p is Ident || p is Stream }
pub open spec fn op_of(x: Ctxt, p: Piece) -> Op {
    match p {
        Piece::Char(c) => Op::Lit(Seq::<char>::empty().push(c)),
        Piece::Tt(t) => Op::Lit(t.text()),
        Piece::Str(s) => Op::Lit(s@),
        Piece::Ident(i) => Op::Code(open_eval(x) + lit_item(x, i.name()) + close_eval(x)),
        Piece::Stream(s) => Op::Code(open_eval(x) + s@ + close_eval(x)),
        Piece::Expr(e) => Op::Code(append(x, e.code())),
    }
}
/// where the first n parts end
pub open spec fn pos(ps: Seq<Part>, start: LineColumn, n: nat) -> LineColumn { if n == 0 { start } else { ps[n - 1].to } }
/// what the first n parts write: each one, and the space of the source before it
pub open spec fn strung(x: Ctxt, ps: Seq<Part>, start: LineColumn, n: nat) -> Out decreases n {
    if n == 0 { (Seq::<Tk>::empty(), Seq::<char>::empty()) }
    else { piece(x, strung(x, ps, start, (n - 1) as nat), Some(pos(ps, start, (n - 1) as nat)), ps[n - 1].from, op_of(x, ps[n - 1].piece)) }
}
/// every part starts on the line on which the one before it ends
pub open spec fn one_line(ps: Seq<Part>, start: LineColumn, end: LineColumn) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).from.line == pos(ps, start, i as nat).line
    &&& pos(ps, start, ps.len()).line == end.line
}
pub open spec fn any_eval(ps: Seq<Part>) -> bool { exists|i: int| 0 <= i < ps.len() && evals((#[trigger] ps[i]).piece) }
/// Encoding the parts of a string one after another writes exactly them, with the spaces of the source between them,
/// before the first and after the last; it is refused exactly if there is a line break between parts; whether there is
/// an evaluation is remembered.
pub fn theorem_string(x: &Ctxt, start: LineColumn, end: LineColumn, span: Span, parts: Vec<Part>) -> (r: Result<(Options, TokenStream)>)
    ensures r is Ok <==> one_line(parts@, start, end),
        r is Ok ==> r->Ok_0.1@ == piece(*x, strung(*x, parts@, start, parts@.len()), Some(pos(parts@, start, parts@.len())), end, Op::Code(tk![])).0
            && (any_eval(parts@) ==> r->Ok_0.0.has_eval.v) && (r->Ok_0.0.has_eval.v ==> any_eval(parts@)),
{
    let ghost p0 = parts@;
    let mut e = Encoder::new(x, start, span);
    let mut rest = parts;
    let mut i: usize = 0;
    let n = rest.len();
    while i < n
        invariant
            p0 == parts@, n == p0.len(), i <= n, rest@ == p0.skip(i as int), e.cx == x, e.at() == Some(pos(p0, start, i as nat)),
            e.out() == strung(*x, p0, start, i as nat),
            forall|j: int| 0 <= j < i ==> (#[trigger] p0[j]).from.line == pos(p0, start, j as nat).line,
            e.options.has_eval.v == any_eval(p0.take(i as int)),
        decreases n - i
    {
        let part = rest.remove(0);
        let ghost h0 = e.options.has_eval.v;
        proof {
            assert(part == p0[i as int]); assert(rest@ =~= p0.skip(i as int + 1));
            let t = p0.take(i as int); let u = t.push(part); assert(p0.take(i as int + 1) =~= u);
            assert(any_eval(u) == (any_eval(t) || evals(part.piece))) by {
                if any_eval(t) { let k = choose|k: int| 0 <= k < t.len() && evals((#[trigger] t[k]).piece); assert(u[k] == t[k]); }
                if evals(part.piece) { assert(u[t.len() as int] == part); }
                if any_eval(u) { let k = choose|k: int| 0 <= k < u.len() && evals((#[trigger] u[k]).piece); if k < t.len() { assert(t[k] == u[k]); } }
            }
        }
        let Part { piece, from, to } = part;
        let done = match piece {
            Piece::Char(c) => e.encode_char(c, from, to),
            Piece::Tt(t) => e.extend_tt(&t, from, Some(to)),
            Piece::Str(s) => e.encode_str(s.as_str(), from, Some(to)),
            Piece::Ident(d) => e.eval_ident(&d, from, Some(to)),
            Piece::Stream(s) => e.eval_stream(s, from, Some(to)),
            Piece::Expr(d) => e.raw_expr(&d, from, Some(to)),
        };
        match done { Ok(()) => {}, Err(err) => { proof { assert(parts@[i as int].from.line != pos(parts@, start, i as nat).line); } return Err(err); } }
        i += 1;
    }
    proof { assert(p0.take(n as int) =~= p0); }
    e.finalize(end)
}
// ---- the text of a string without interpolations is the text of the source ----
pub mod verbatim {
use super::*;
pub open spec fn plain(p: Piece) -> bool { p is Char || p is Tt }
pub open spec fn text_of(p: Piece) -> Seq<char> { match p { Piece::Char(c) => Seq::<char>::empty().push(c), Piece::Tt(t) => t.text(), _ => Seq::<char>::empty() } }
/// `src` is the line of the source: the parts stand in it at their places, and between them there are only spaces
pub open spec fn stands(src: Seq<char>, ps: Seq<Part>, start: LineColumn, n: nat) -> bool decreases n {
    if n == 0 { start.column <= src.len() }
    else {
        let p = ps[n - 1]; let a = pos(ps, start, (n - 1) as nat);
        &&& stands(src, ps, start, (n - 1) as nat)
        &&& plain(p.piece) && a.column <= p.from.column <= p.to.column <= src.len()
        &&& src.subrange(p.from.column as int, p.to.column as int) == text_of(p.piece)
        &&& forall|i: int| a.column <= i < p.from.column ==> src[i] == ' '
    }
}
pub proof fn lemma_gap(src: Seq<char>, a: LineColumn, f: LineColumn)
    requires a.column <= f.column <= src.len(), forall|i: int| a.column <= i < f.column ==> src[i] == ' '
    ensures gap(Some(a), Some(f)) == src.subrange(a.column as int, f.column as int)
{ assert(gap(Some(a), Some(f)) =~= src.subrange(a.column as int, f.column as int)); }
pub proof fn lemma_verbatim(x: Ctxt, src: Seq<char>, ps: Seq<Part>, start: LineColumn, n: nat)
    requires stands(src, ps, start, n)
    ensures strung(x, ps, start, n) == (Seq::<Tk>::empty(), src.subrange(start.column as int, pos(ps, start, n).column as int)), start.column <= pos(ps, start, n).column <= src.len()
    decreases n
{
    if n == 0 { assert(src.subrange(start.column as int, start.column as int) =~= Seq::<char>::empty()); }
    else {
        lemma_verbatim(x, src, ps, start, (n - 1) as nat);
        let p = ps[n - 1]; let a = pos(ps, start, (n - 1) as nat);
        lemma_gap(src, a, p.from);
        let e = Seq::<Tk>::empty();
        assert(src.subrange(start.column as int, p.to.column as int) =~= src.subrange(start.column as int, a.column as int) + src.subrange(a.column as int, p.from.column as int) + src.subrange(p.from.column as int, p.to.column as int));
    }
}
/// a string without interpolations is written as one literal: the source between the quotes, every space included
pub proof fn theorem_verbatim(x: Ctxt, src: Seq<char>, ps: Seq<Part>, start: LineColumn, end: LineColumn)
    requires stands(src, ps, start, ps.len()), pos(ps, start, ps.len()).column <= end.column <= src.len(), forall|i: int| pos(ps, start, ps.len()).column <= i < end.column ==> src[i] == ' '
    ensures piece(x, strung(x, ps, start, ps.len()), Some(pos(ps, start, ps.len())), end, Op::Code(tk![])).0 == wait_(x, src.subrange(start.column as int, end.column as int))
{
    lemma_verbatim(x, src, ps, start, ps.len());
    let a = pos(ps, start, ps.len());
    lemma_gap(src, a, end);
    assert(src.subrange(start.column as int, end.column as int) =~= src.subrange(start.column as int, a.column as int) + src.subrange(a.column as int, end.column as int));
}
}
} // verus!
fn main() {}
